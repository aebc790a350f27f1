From 3a0769c52e37d259b01cc5b02a0e5f655b723419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 01/35] fix: explicit bonds given to contractTwoTensors may be
 oriented either way

---
 src/CTL/tensor/contract/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index ed0be84..60799b8 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -104,8 +104,8 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
 
         # return Tensor(labels = labels, data = data, legs = legs)
 
-    contractALegs = [bond.legs[0] for bond in bonds]
-    contractBLegs = [bond.legs[1] for bond in bonds]
+    contractALegs = [bond.sideLeg(ta) for bond in bonds]
+    contractBLegs = [bond.sideLeg(tb) for bond in bonds]
 
     taRemainLegs = ta.complementLegs(contractALegs)
     tbRemainLegs = tb.complementLegs(contractBLegs)
-- 
2.43.0


From a53d98732c0228e8ae03a8069929cff18e58460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 02/35] fix: moveLegsToFront must not change the list of legs
 it is given

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 src/CTL/tensor/tensor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index d452fb3..8aabcae 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -492,7 +492,7 @@ class DiagonalTensor(Tensor):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index c410ef4..5cef037 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -561,7 +561,7 @@ class Tensor(TensorBase):
         moveFrom = []
         moveTo = []
         currIdx = 0
-        movedLegs = legs
+        movedLegs = list(legs)
         for currLeg in legs:
             for i, leg in enumerate(self.legs):
                 if (leg == currLeg):
-- 
2.43.0


From 8275984ceeebe5c282a8cff77033b58359aee3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 03/35] fix: a tensor keeps its own list of legs, not the
 caller's

---
 src/CTL/tensor/diagonalTensor.py | 1 +
 src/CTL/tensor/tensor.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 8aabcae..bb06027 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -387,6 +387,7 @@ class DiagonalTensor(Tensor):
                 legs.append(Leg(self, dim, label))
 
         else:
+            legs = list(legs)
             for leg in legs:
                 leg.tensor = self
 
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 5cef037..cc2d70b 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -362,6 +362,7 @@ class Tensor(TensorBase):
                 legs.append(Leg(self, dim, label))
 
         else:
+            legs = list(legs)
             for leg in legs:
                 leg.tensor = self
 
-- 
2.43.0


From 34bc8ca1012be62299d6926207606ecf76a64041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 04/35] fix: summing out legs of tensors without data

---
 src/CTL/tensor/diagonalTensor.py | 6 ++++--
 src/CTL/tensor/tensor.py         | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index bb06027..8ec177b 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -739,13 +739,15 @@ class DiagonalTensor(Tensor):
         # if weights is None:
         if (len(self.legs) == 0):
             # not a diagonal tensor, since the last sum will give a single value
-            if weights is None:
+            if self.tensorLikeFlag:
+                pass
+            elif weights is None:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a))
             else:
                 self.a = xplib.xp.array(xplib.xp.sum(self.a * weights))
             self._length = 1
         else:
-            if (weights is not None):
+            if (weights is not None) and (not self.tensorLikeFlag):
                 self.a = self.a * weights
 
     def typeName(self):
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index cc2d70b..f7e51c2 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1097,7 +1097,8 @@ class Tensor(TensorBase):
         
         idx = self.legs.index(leg)
         # self.a = xplib.xp.sum(self.a, axis = idx)
-        self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
+        if (not self.tensorLikeFlag):
+            self.a = funcs.sumOnAxis(self.a, axis = idx, weights = weights)
         self.legs = self.legs[:idx] + self.legs[(idx + 1):]
     
     def sumOutLegByLabel(self, label, backward = False, weights = None):
-- 
2.43.0


From ca0316a5d34be6b6b9aa791e0c45723537b6d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 05/35] fix: sumOutLegByLabel with a list of labels applies the
 weights

---
 src/CTL/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index f7e51c2..885d3b5 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -1117,7 +1117,7 @@ class Tensor(TensorBase):
         """
         if isinstance(label, list):
             for l in label:
-                self.sumOutLegByLabel(l, backward)
+                self.sumOutLegByLabel(l, backward, weights = weights)
             return 
         leg = self.getLeg(label, backward = backward)
         if leg is None:
-- 
2.43.0


From bc38a091bc73d2134e53d7abd749a577719788c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 06/35] fix: scalar diagonal tensors can be copied and own
 consistent data

---
 src/CTL/tensor/diagonalTensor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 8ec177b..4318572 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -227,7 +227,9 @@ class DiagonalTensor(Tensor):
         if (isTensorLike):
             return None
         # print('generating data for data = {}'.format(data))
-        if (data is None):
+        if (len(shape) == 0):
+            data = xplib.xp.array(1.0) if (data is None) else xplib.xp.copy(data.reshape(shape))
+        elif (data is None):
             data = xplib.xp.ones(shape[0])
         # otherwise, data can be 1D-array, or ndarray
         elif (len(data.shape) == 1):
@@ -253,10 +255,10 @@ class DiagonalTensor(Tensor):
         funcName = "DiagonalTensor.deduction"
 
         # first, consider scalar case
-        if (legs is None) and (labels is None) and (shape == () or ((data is not None) and (data.shape == ()))):
-            if (data is None) and (not isTensorLike):
-                data = xplib.xp.array(1.0)
-            return [], data, [], () # scalar
+        if (legs is None) and (labels is None) and (shape == () or ((shape is None) and (data is not None) and (data.shape == ()))):
+            if (not self.checkShapeDataCompatible(shape = (), data = data)):
+                raise ValueError(funcs.errorMessage('data shape {} is not compatible with required shape ()'.format(data.shape), location = funcName))
+            return [], self.generateData(shape = (), data = data, isTensorLike = isTensorLike), [], () # scalar
             
 
         if (legs is not None):
-- 
2.43.0


From dc679a412b4e889179b056610a37df6dd670a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 07/35] fix: DiagonalTensor takes the diagonal of regrouped
 data

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 4318572..519d9c7 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -232,13 +232,13 @@ class DiagonalTensor(Tensor):
         elif (data is None):
             data = xplib.xp.ones(shape[0])
         # otherwise, data can be 1D-array, or ndarray
-        elif (len(data.shape) == 1):
+        elif (len(data.shape) == 1) and (len(data) == shape[0]):
             data = xplib.xp.copy(data)
         else:
             l, dim = len(shape), shape[0]
             # print('dim = {}, l = {}'.format(dim, l))
             # print(xplib.xp.diag_indices(dim, l))
-            data = xplib.xp.copy(data[xplib.xp.diag_indices(dim, l)])
+            data = xplib.xp.copy(data.reshape(shape)[xplib.xp.diag_indices(dim, l)])
         return data
 
     def deduction(self, legs, data, labels, shape, isTensorLike = False):
-- 
2.43.0


From 2f951e84e11884d5fb8242bedda9091e13a25866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 08/35] fix: diagonalNDTensor keeps the data type and accepts
 scalars

---
 src/CTL/funcs/funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 70aa5a3..d703a62 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1093,8 +1093,10 @@ def diagonalNDTensor(a, dim):
         A diagonal tensor of dim dimension, and contains the values of a in order on its diagonal.
 
     """
+    if (dim == 0):
+        return xplib.xp.copy(a)
     l = a.shape[0]
-    res = xplib.xp.zeros(tuple([l] * dim))
+    res = xplib.xp.zeros(tuple([l] * dim), dtype = a.dtype)
     res[xplib.xp.diag_indices(l, dim)] = a
     # for i in range(l):
     # 	res[tuple([i] * dim)] = a[i]
-- 
2.43.0


From db6d325cf93941670cb62562e0e946d30ba083de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 09/35] fix: toMatrix accepts an empty list of rows or columns

---
 src/CTL/tensor/diagonalTensor.py | 4 ++--
 src/CTL/tensor/tensor.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 519d9c7..4dc9c84 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -559,9 +559,9 @@ class DiagonalTensor(Tensor):
         # input two set of legs
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toMatrix", deprecateMessage = "Diagonal tensors should be used in a better way for linear algebra calculation rather than be made into a matrix.")
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
diff --git a/src/CTL/tensor/tensor.py b/src/CTL/tensor/tensor.py
index 885d3b5..7d20733 100644
--- a/src/CTL/tensor/tensor.py
+++ b/src/CTL/tensor/tensor.py
@@ -616,9 +616,9 @@ class Tensor(TensorBase):
         # input two set of legs
         assert (not self.tensorLikeFlag), funcs.errorMessage('TensorLike cannot be transferred to matrix since no data contained.', 'Tensor.toMatrix')
         assert not ((rows is None) and (cols is None)), "Error in Tensor.toMatrix: toMatrix must have at least row or col exist."
-        if (rows is not None) and (isinstance(rows[0], str)):
+        if (rows is not None) and (len(rows) > 0) and (isinstance(rows[0], str)):
             rows = [self.getLeg(label) for label in rows]
-        if (cols is not None) and (isinstance(cols[0], str)):
+        if (cols is not None) and (len(cols) > 0) and (isinstance(cols[0], str)):
             cols = [self.getLeg(label) for label in cols]
         if (cols is None):
             cols = funcs.listDifference(self.legs, rows)
-- 
2.43.0


From 474b19aa8ac1ddac40d2a8ba3229e93b812529ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 10/35] fix: DiagonalTensor.toMatrix accepts the same calls as
 Tensor.toMatrix

---
 src/CTL/tensor/diagonalTensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index 4dc9c84..b018802 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -533,7 +533,7 @@ class DiagonalTensor(Tensor):
         funcs.deprecatedFuncWarning(funcName = "DiagonalTensor.toVector", deprecateMessage = "This will return a vector corresponding to the diagonal of tensor instead of the complete tensor.")
         return xplib.xp.copy(xplib.xp.ravel(self.a))
     
-    def toMatrix(self, rows, cols):
+    def toMatrix(self, rows = None, cols = None):
         """
         Deprecated
 
-- 
2.43.0


From 6d66b68df16d3c2dac061be816b3961695bfe87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 11/35] fix: the outer product of two diagonal tensors is a
 dense tensor, also in the order search

---
 src/CTL/tensor/contract/contract.py        | 13 ++++++++++---
 src/CTL/tensor/contract/optimalContract.py |  4 ++--
 src/CTL/tensor/contract/tensorGraph.py     | 20 ++++++--------------
 3 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index 60799b8..aa056a8 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -77,18 +77,25 @@ def contractTwoTensors(ta, tb, bonds = None, outProductWarning = True):
         shape = ta.shape + tb.shape
         legs = ta.legs + tb.legs
 
-        if (ta.diagonalFlag and tb.diagonalFlag):
+        if (ta.diagonalFlag and tb.diagonalFlag and ((ta.dim == 0) or (tb.dim == 0))):
+            # multiplied by a scalar: still diagonal
             if (tensorLikeContract):
                 return DiagonalTensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
                 return DiagonalTensor(labels = labels, data = ta.a * tb.a, shape = shape, legs = legs)
-        elif (ta.diagonalFlag):
+        elif (ta.diagonalFlag and tb.diagonalFlag and (not tensorLikeContract)):
+            # the outer product of two diagonal tensors is not diagonal
+            outerData = xplib.xp.multiply.outer(ta.a, tb.a)
+            data = xplib.xp.zeros(shape, dtype = outerData.dtype)
+            xplib.xp.einsum('i' * ta.dim + 'j' * tb.dim + '->ij', data)[...] = outerData
+            return Tensor(labels = labels, data = data, shape = shape, legs = legs)
+        elif (ta.diagonalFlag and (ta.dim > 0)):
             if (tensorLikeContract):
                 return Tensor(labels = labels, data = None, shape = shape, legs = legs, tensorLikeFlag = True)
             else:
-                data = xplib.xp.zeros(shape, dtype = ta.a.dtype)
                 einsumStr = ('j' * ta.dim) + '...->j...'
                 outerData = xplib.xp.multiply.outer(ta.a, tb.a)
+                data = xplib.xp.zeros(shape, dtype = outerData.dtype)
                 xplib.xp.einsum(einsumStr, data)[...] = outerData
             return Tensor(labels = labels, data = data, shape = shape, legs = legs)
         else:
diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 68d74f8..2357b48 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -76,12 +76,12 @@ def contractCost(ta, tb):
         The order of the cost(how many dimensions). This is used when we want to decide the order of our calculation to a given bond dimension chi.
     """
     diagonalA, diagonalB = ta.diagonalFlag, tb.diagonalFlag 
-    if (diagonalA and diagonalB):
+    bonds = shareBonds(ta, tb)
+    if (diagonalA and diagonalB and (len(bonds) > 0)):
         return ta.bondDimension(), 1
 
     diagonal = diagonalA or diagonalB
     
-    bonds = shareBonds(ta, tb)
     intersectionShape = tuple([bond.legs[0].dim for bond in bonds])
     if (not diagonal):
         cost = funcs.tupleProduct(ta.shape) * funcs.tupleProduct(tb.shape) // funcs.tupleProduct(intersectionShape)
diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index e061362..5dc25de 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -178,7 +178,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, shapeA, diagonalA = self.contractRes[tsA]
             edgesB, shapeB, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and isSharingBond(tsA, tsB)):
                 # both diagonal, only need to product
                 return shapeA[0]
             
@@ -200,7 +200,7 @@ class TensorGraph(UndirectedGraph):
             edgesA, _, diagonalA = self.contractRes[tsA]
             edgesB, _, diagonalB = self.contractRes[tsB]
 
-            if (diagonalA and diagonalB):
+            if (diagonalA and diagonalB and isSharingBond(tsA, tsB)):
                 costOrder = 1
             else:
                 clb = set(funcs.commonElements(edgesA, edgesB))
@@ -221,9 +221,6 @@ class TensorGraph(UndirectedGraph):
             commonEdges = funcs.commonElements(edgesA, edgesB)
             return len(commonEdges) > 0
         
-        def isDiagonalOuterProduct(tsA, tsB):
-            return tsA[2] and tsB[2] and (not isSharingBond(tsA, tsB))
-
         def calculateContractRes(tsA, tsB):
             if (isinstance(tsA, int)):
                 tsA = self.contractRes[tsA]
@@ -242,7 +239,8 @@ class TensorGraph(UndirectedGraph):
             for l, s in zip(edgesA + edgesB, shapeA + shapeB):
                 if (l in edgeIndex):
                     shape[edgeIndex[l]] = s
-            return (edges, shape, diagonalA and diagonalB)
+            # the outer product of two diagonal tensors is not diagonal
+            return (edges, shape, diagonalA and diagonalB and isSharingBond(tsA, tsB))
 
         def getSize(tsA, tsB):
             '''
@@ -273,9 +271,6 @@ class TensorGraph(UndirectedGraph):
                     solveSet(tsA)
                 if (self.optimalCost[tsB] is None):
                     solveSet(tsB)
-                if (self.contractRes[x] is None):
-                    self.contractRes[x] = calculateContractRes(tsA, tsB)
-                
                 localCost = costFunc(tsA, tsB)
                 currCost = self.optimalCost[tsA] + self.optimalCost[tsB] + localCost
                 if (minCost is None) or (currCost < minCost):
@@ -283,6 +278,7 @@ class TensorGraph(UndirectedGraph):
                     minTSA = tsA
                     minTSB = tsB
 
+            self.contractRes[x] = calculateContractRes(minTSA, minTSB)
             self.optimalCost[x] = minCost
             self.optimalSeq[x] = self.optimalSeq[minTSA] + self.optimalSeq[minTSB] + [(lowbitI(minTSA), lowbitI(minTSB))]
 
@@ -372,12 +368,7 @@ class TensorGraph(UndirectedGraph):
                             #print('t1 = {}, t2 = {}'.format(t1, t2))
                             if ((t1 & t2) != 0):
                                 continue 
-                            if (isDiagonalOuterProduct(self.contractRes[t1], self.contractRes[t2])):
-                                # diagonal outer product is banned
-                                continue
                             tt = t1 | t2
-                            if (self.contractRes[tt] is None):
-                                self.contractRes[tt] = calculateContractRes(t1, t2)
 
                             if (new_flag[t1] or new_flag[t2]):
                                 mu_0 = 0
@@ -395,6 +386,7 @@ class TensorGraph(UndirectedGraph):
                                     obj_list[c].append(tt)
                                     #print('append {} to {}'.format(tt, c))
                                 if (self.optimalCost[tt] is None) or (self.optimalCost[tt] > mu_curr):
+                                    self.contractRes[tt] = calculateContractRes(t1, t2)
                                     self.optimalCost[tt] = mu_curr
                                     self.optimalSeq[tt] = self.optimalSeq[t1] + self.optimalSeq[t2] + [(lowbitI(t1), lowbitI(t2))]
                                     new_flag[tt] = True
-- 
2.43.0


From 01cce8ef91fca26814b23bb71652de492dee81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 12/35] fix: order search over networks holding scalar tensors

---
 src/CTL/tensor/contract/tensorGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 5dc25de..438fd60 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -319,7 +319,7 @@ class TensorGraph(UndirectedGraph):
             obj_n = (1 << n)
             new_flag = [True] * obj_n 
             if (typicalDim is None):
-                chi_min = min([min(x) for x in shapes])
+                chi_min = min([min(x) for x in shapes if (len(x) > 0)], default = 2)
             else:
                 chi_min = typicalDim
             # mu_cap = 1
-- 
2.43.0


From 9d27e5e6abf831b985633e7ffa0f2393b41fa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 13/35] fix: greedy order search on disconnected networks

---
 src/CTL/tensor/contract/tensorGraph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 438fd60..71a5f20 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -299,9 +299,11 @@ class TensorGraph(UndirectedGraph):
                 minTSA = -1
                 minTSB = -1
 
-                for tsA, tsB in funcs.pairIterator(tensorSet):
-                    if (not isSharingBond(tsA, tsB)):
-                        continue
+                pairs = [(tsA, tsB) for tsA, tsB in funcs.pairIterator(tensorSet) if isSharingBond(tsA, tsB)]
+                if (len(pairs) == 0):
+                    # disconnected parts: only outer products are left
+                    pairs = funcs.pairIterator(tensorSet)
+                for tsA, tsB in pairs:
                     newSize = getSize(tsA, tsB)
                     if (minSize == -1) or (newSize < minSize):
                         minSize = newSize 
-- 
2.43.0


From c4cb484808e7d155cb62f4bfc78b3dde15911109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 14/35] fix: TensorGraph.optimalCostResult before any search

---
 src/CTL/tensor/contract/tensorGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index 71a5f20..f0b7a5b 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -42,6 +42,7 @@ class TensorGraph(UndirectedGraph):
     def __init__(self, n, diagonalFlags = None):
         super().__init__(n)
         self.indexed = False
+        self.optimalCost = None
         if (diagonalFlags is None):
             self.diagonalFlags = [False] * n
         else:
-- 
2.43.0


From 0b8aaf373b12eed68319b9675396689019098473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 15/35] fix: TensorGraph lists and indexes edges added after an
 earlier query

---
 src/CTL/tensor/contract/tensorGraph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index f0b7a5b..f93fb20 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -60,13 +60,12 @@ class TensorGraph(UndirectedGraph):
             If int, then added to the added edge as weight, used for cost calculation.
         """
         self.v[idx].addEdge(None, weight = weight)
+        self.updated = True
 
     def addEdgeIndex(self):
         """
         Add an index to each edge.
         """
-        if (self.indexed):
-            return
         edges = self.getEdges()
         m = len(edges)
         for i in range(m):
-- 
2.43.0


From f7be58c451b30099521de6ef06e3618bfc7cdb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 16/35] fix: separate FiniteTensorNetworks do not share their
 list of tensor names

---
 src/CTL/tensornetwork/tensornetwork.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index eb83d2a..3ca9d14 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -7,8 +7,8 @@ class FiniteTensorNetwork:
     # instead of save the tensors: save a set of operations
     # provide a function api FiniteTensorNetwork.contract(tensorDict)
 
-    def __init__(self, tensorNames = [], realCost = True, typicalDim = 10):
-        self.tensorNames = tensorNames
+    def __init__(self, tensorNames = (), realCost = True, typicalDim = 10):
+        self.tensorNames = list(tensorNames)
         self.optimalSeq = None 
         self.realCost = realCost 
         self.links = []
-- 
2.43.0


From f7f25c752a83bab9daceb282676358c2c82bed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 17/35] fix: adding or removing tensors of a
 FiniteTensorNetwork drops its cached order

---
 src/CTL/tensornetwork/tensornetwork.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CTL/tensornetwork/tensornetwork.py b/src/CTL/tensornetwork/tensornetwork.py
index 3ca9d14..331c0e7 100644
--- a/src/CTL/tensornetwork/tensornetwork.py
+++ b/src/CTL/tensornetwork/tensornetwork.py
@@ -39,11 +39,13 @@ class FiniteTensorNetwork:
         # assert (not self.locked), "Error: adding tensor {} to a FTN which is locked.".format(name)
         self.checkLock('adding tensor {}'.format(name))
         self.tensorNames.append(name)
+        self.optimalSeq = None
     def removeTensor(self, name):
         # assert (not self.locked), "Error: removing tensor {} to a FTN which is locked.".format(name)
         self.checkLock('removing tensor {}'.format(name))
         assert (name in self.tensorNames), "Error: removing tensor {} to a FTN which do not contain it.".format(name)
         self.tensorNames.remove(name)
+        self.optimalSeq = None
 
     def lock(self):
         self.locked = True 
-- 
2.43.0


From 2bcbbf55ee55731ba5341f248fce7efdf7d4aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 18/35] fix: linking a leg again frees its previous partner

---
 src/CTL/tensor/bond.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CTL/tensor/bond.py b/src/CTL/tensor/bond.py
index 3bd8576..9ef3b14 100644
--- a/src/CTL/tensor/bond.py
+++ b/src/CTL/tensor/bond.py
@@ -30,6 +30,11 @@ class Bond:
         # self.name = getBondName(name)
         self.name = name
         self.legs = (leg1, leg2)
+        for leg in self.legs:
+            # a leg that is linked again leaves its previous partner free
+            if (leg.bond is not None):
+                leg.anotherSide().bond = None
+                leg.bond = None
         leg1.bond = self 
         leg2.bond = self
 
-- 
2.43.0


From 411123a94df573383cf988e06ddebe2e9147aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 19/35] fix: copyTensorList with outgoing links leaves the
 original legs usable

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 2357b48..8dc3e4d 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -46,7 +46,7 @@ def copyTensorList(tensorList, tensorLikeFlag = False, linkOutgoingBonds = False
 
                 if (leg2.tensor not in tensorList):
                     if (linkOutgoingBonds):
-                        del leg.bond 
+                        leg.bond = None
                         makeLink(newLeg1, leg2)
                     continue
 
-- 
2.43.0


From d3021f3acea4f91025e0390307748b7cfa31133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 20/35] fix: order search for a list with links to tensors
 outside the list

---
 src/CTL/tensor/contract/optimalContract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 8dc3e4d..8245caa 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -119,7 +119,8 @@ def makeTensorGraph(tensorList):
         idxDict[tensorList[i]] = i
     for i in range(n):
         for leg in tensorList[i].legs:
-            if (leg.bond is None):
+            if (leg.bond is None) or (leg.anotherSide().tensor not in idxDict):
+                # free legs, and links to tensors outside the list
                 g.addFreeEdge(i, leg.dim)
             else:
                 bond = leg.bond 
-- 
2.43.0


From c19c88e8b7234cab2a413b6de26d8831678f07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 21/35] fix: Ising networks of graphs with isolated vertices

---
 src/CTL/models/Ising.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/models/Ising.py b/src/CTL/models/Ising.py
index 0e0344d..68825b4 100644
--- a/src/CTL/models/Ising.py
+++ b/src/CTL/models/Ising.py
@@ -199,6 +199,10 @@ def IsingSiteTensor(betaJ, dim = 4, labels = None):
     assert (funcs.isRealNumber(betaJ) or (len(betaJ) == dim)), funcs.errorMessage("betaJ {} do not have required dim {}.".format(betaJ, dim))
     assert ((labels is None) or (len(labels) == dim)), funcs.errorMessage("labels {} do not have required dim {}.".format(labels, dim))
 
+    if (dim == 0):
+        # an isolated site: both of its states have weight 1
+        return Tensor(data = xplib.xp.array(2.0), labels = labels)
+
     a = xplib.xp.array([1.0, 1.0])
     a = funcs.diagonalNDTensor(a, dim = dim)
     if (funcs.isRealNumber(betaJ)):
-- 
2.43.0


From 7617f17b540e3c8673954fcfdd42cc8707a03bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 22/35] fix: tensorSVDDecomposition with only rows or only
 columns given

---
 src/CTL/tensor/tensorFunc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/tensorFunc.py b/src/CTL/tensor/tensorFunc.py
index 335cfac..84350da 100644
--- a/src/CTL/tensor/tensorFunc.py
+++ b/src/CTL/tensor/tensorFunc.py
@@ -74,6 +74,10 @@ def tensorSVDDecomposition(a, rows = None, cols = None, innerLabels = None, pres
     funcName = "CTL.tensor.tensorFuncs.tensorSVDDecomposition"
     aMat = a.toMatrix(rows = rows, cols = cols)
     # print('aMat = {}'.format(aMat))
+    if (rows is None):
+        rows = funcs.listDifference(a.labels, cols)
+    if (cols is None):
+        cols = funcs.listDifference(a.labels, rows)
     rowName = '|'.join(rows)
     colName = '|'.join(cols)
 
-- 
2.43.0


From 57978e07d8fb626e0ae06921d3b1fa4bf482ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 23/35] fix: floatRelativeEqual for negative numbers

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index d703a62..7dcb331 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -972,7 +972,7 @@ def floatRelativeEqual(a, b, eps = 1e-7):
     bool
         Whether the two numbers are equal.
     """
-    return abs(a - b) < eps * 0.5 * (a + b)
+    return abs(a - b) <= eps * 0.5 * (abs(a) + abs(b))
 
 def floatArrayEqual(a, b, eps = 1e-7):
     """
-- 
2.43.0


From e0af74e4d02bdab524847c4058b4bb7874bce099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 24/35] fix: diagonal tensors record the element type of their
 data and honour dtype for default data

---
 src/CTL/tensor/diagonalTensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CTL/tensor/diagonalTensor.py b/src/CTL/tensor/diagonalTensor.py
index b018802..3a09875 100644
--- a/src/CTL/tensor/diagonalTensor.py
+++ b/src/CTL/tensor/diagonalTensor.py
@@ -228,9 +228,9 @@ class DiagonalTensor(Tensor):
             return None
         # print('generating data for data = {}'.format(data))
         if (len(shape) == 0):
-            data = xplib.xp.array(1.0) if (data is None) else xplib.xp.copy(data.reshape(shape))
+            data = xplib.xp.array(1.0, dtype = self.dtype) if (data is None) else xplib.xp.copy(data.reshape(shape))
         elif (data is None):
-            data = xplib.xp.ones(shape[0])
+            data = xplib.xp.ones(shape[0], dtype = self.dtype)
         # otherwise, data can be 1D-array, or ndarray
         elif (len(data.shape) == 1) and (len(data) == shape[0]):
             data = xplib.xp.copy(data)
@@ -400,6 +400,7 @@ class DiagonalTensor(Tensor):
 
     def __init__(self, shape = None, labels = None, data = None, degreeOfFreedom = None, name = None, legs = None, tensorLikeFlag = False, dtype = xplib.xp.float64):
         super().__init__(diagonalFlag = True, tensorLikeFlag = tensorLikeFlag, dtype = dtype)
+        self.dtype = self.deduceDataType(data = data, dtype = dtype)
 
         legs, data, labels, shape = self.deduction(legs = legs, data = data, labels = labels, shape = shape, isTensorLike = tensorLikeFlag)
 
-- 
2.43.0


From bb97a469e96a27c01f01739fd32587d35a1a42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 25/35] fix: solveEnv keeps no eigenvector when none exceeds
 the threshold

With no eigenvalue over the threshold the slice [:, -0:] kept every
eigenvector, more than chi of them.
---
 src/CTL/funcs/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/linalg.py b/src/CTL/funcs/linalg.py
index 62d6ca3..26fa05d 100644
--- a/src/CTL/funcs/linalg.py
+++ b/src/CTL/funcs/linalg.py
@@ -26,5 +26,5 @@ def solveEnv(aMat, chi, threshold = 1e-10):
     # if (chi > eigenVectorsEnv.shape[1]):
     #     return eigenVectorsEnv, 0.0
     # else:
-    return xplib.xp.flip(eigenVectorsEnv[:, -chi:], axis = 1), error
+    return xplib.xp.flip(eigenVectorsEnv[:, (eigenVectorsEnv.shape[1] - chi):], axis = 1), error
     # return eigenVectorsEnv[:, -chi:]
\ No newline at end of file
-- 
2.43.0


From a59ae612f5bb887f73ea9991b03b8dc06fd57460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 26/35] fix: makeLink refuses mismatching dimensions before
 making any link

---
 src/CTL/tensor/contract/link.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index bed7c6d..46739a3 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -52,9 +52,12 @@ def makeLink(legA, legB, tensorA = None, tensorB = None):
 
     assert (len(legA) == len(legB)), "Error: the number of legs from A({}) and B({}) are not the same.".format(len(legA), len(legB))
 
-    bonds = []
+    # check all pairs before any link is made, so that a refused call changes nothing
     for leg1, leg2 in zip(legA, legB):
         assert (leg1.dim == leg2.dim), "Error: leg {} and {} to be linked do not have the same dimensions.".format(leg1, leg2)
+
+    bonds = []
+    for leg1, leg2 in zip(legA, legB):
         bonds.append(Bond(leg1, leg2))
     
     return bonds
-- 
2.43.0


From 221fd1e03ae6a9db1c58e78c996548189c1077d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 27/35] fix: mergeLink refuses diagonal tensors before fusing
 legs of the other side

---
 src/CTL/tensor/contract/link.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CTL/tensor/contract/link.py b/src/CTL/tensor/contract/link.py
index 46739a3..a2611aa 100644
--- a/src/CTL/tensor/contract/link.py
+++ b/src/CTL/tensor/contract/link.py
@@ -115,6 +115,10 @@ def mergeLink(ta, tb, bondName = None, renameWarning = True):
     else:
         bondNameA, bondNameB = bondName # tuple/list
 
+    if (ta.diagonalFlag or tb.diagonalFlag):
+        # refuse before the legs of any side are fused
+        raise TypeError(funcs.errorMessage(err = 'links of diagonal tensors cannot be merged, since the diagonal nature will be destroyed: {} and {} obtained.'.format(ta, tb), location = funcName))
+
     newLegA = ta.outProduct(legList = mergeLegA, newLabel = bondNameA)
     newLegB = tb.outProduct(legList = mergeLegB, newLabel = bondNameB)
 
-- 
2.43.0


From 84fab468035ac2ca2ef817267ed793f554eca2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 28/35] fix: commonElements lists every common element once

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 7dcb331..b7147a0 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -166,7 +166,7 @@ def commonElements(x, y):
     """
     xc = Counter(x)
     yc = Counter(y)
-    return list((xc & yc).elements())
+    return list((xc & yc).keys())
 
 def listSymmetricDifference(x, y):
     """
-- 
2.43.0


From 4d4b08863b96fe3db328487cc42aca5cf651b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 29/35] fix: ndEye of one dimension has ones everywhere

---
 src/CTL/funcs/funcs.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index b7147a0..e1ec298 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1143,10 +1143,7 @@ def ndEye(n, l):
         A tensor of shape (l, l, ... l), all values on the main diagonal is 1.
     """
     res = xplib.xp.zeros(tuple([l] * n))
-    if (n == 1):
-        res[0] = 1.0
-    else:
-        res[xplib.xp.diag_indices(l, n)] = 1
+    res[xplib.xp.diag_indices(l, n)] = 1
     return res
 
 def nonZeroElementN(s, eps = 1e-10):
-- 
2.43.0


From 34f8bab0548ca271d5e45ef398094cb1de704fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 30/35] fix: loadData does not use the removed numpy.float

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index e1ec298..8415753 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -306,7 +306,7 @@ def loadData(fileName):
         A 2-d array of the file, columns and rows as two dimensions.
     """
     f = open(fileName, 'r')
-    data = xplib.xp.array([xplib.xp.array([xplib.xp.float(x) for x in line.strip().split(' ')]) for line in f])
+    data = xplib.xp.array([xplib.xp.array([float(x) for x in line.strip().split(' ')]) for line in f])
     return data
 
 def randomString(n = 10):
-- 
2.43.0


From 62b3f01434bca2df856f64b37d162afb97b4b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 31/35] fix: StringSet keeps the length of generated strings

---
 src/CTL/funcs/stringSet.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CTL/funcs/stringSet.py b/src/CTL/funcs/stringSet.py
index e219d29..d4f6e7a 100644
--- a/src/CTL/funcs/stringSet.py
+++ b/src/CTL/funcs/stringSet.py
@@ -66,7 +66,6 @@ class StringSet:
         """
         assert not (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is already used.".format(s), location = "StringSet.add")
         self.stringSet.add(s)
-        self.n += 1
 
     def remove(self, s):
         """
@@ -84,7 +83,6 @@ class StringSet:
         """
         assert (s in self.stringSet), funcs.errorMessage(err = "Error: name '{}' is not used.".format(s), location = "StringSet.remove")
         self.stringSet.remove(s)
-        self.n -= 1
 
     def contains(self, s):
         """
-- 
2.43.0


From 0c0f5c37b327b9c4baaf1dfd42ed8bd33dd028da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 32/35] fix: merging the links of tensors with zero product
 keeps a bond of dimension one

---
 src/CTL/tensor/contract/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/contract.py b/src/CTL/tensor/contract/contract.py
index aa056a8..7f23061 100644
--- a/src/CTL/tensor/contract/contract.py
+++ b/src/CTL/tensor/contract/contract.py
@@ -260,7 +260,7 @@ def merge(ta, tb, chi = None, bondName = None, renameWarning = True):
 
         u, s, vh = xplib.xp.linalg.svd(mat)
 
-        chi = min([chi, funcs.nonZeroElementN(s), matA.shape[0], matB.shape[1]])
+        chi = min([chi, max(1, funcs.nonZeroElementN(s)), matA.shape[0], matB.shape[1]])
         u = u[:, :chi]
         s = s[:chi]
         vh = vh[:chi]
-- 
2.43.0


From 7ab64b3f4e8f82af48e43009ec7173f062274044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 33/35] fix: isRealNumber refused numpy floats, so lattices and
 Ising site tensors could not be built from them

---
 src/CTL/funcs/funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/funcs/funcs.py b/src/CTL/funcs/funcs.py
index 8415753..56a357e 100644
--- a/src/CTL/funcs/funcs.py
+++ b/src/CTL/funcs/funcs.py
@@ -1237,7 +1237,7 @@ def isRealNumber(a):
     bool
         Whether a is a number(int, float) or not.
     """
-    return (type(a) == int) or (type(a) == float)
+    return isinstance(a, (int, float))
 
 def pairIterator(a):
     """
-- 
2.43.0


From df8f86a779e5b502ce14781696db77c434cecf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:03 +0000
Subject: [PATCH 34/35] fix: costs of contraction in the order search are exact
 integers also beyond the precision of floats

---
 src/CTL/tensor/contract/tensorGraph.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/CTL/tensor/contract/tensorGraph.py b/src/CTL/tensor/contract/tensorGraph.py
index f93fb20..0635ec9 100644
--- a/src/CTL/tensor/contract/tensorGraph.py
+++ b/src/CTL/tensor/contract/tensorGraph.py
@@ -186,15 +186,16 @@ class TensorGraph(UndirectedGraph):
 
             clb = set(funcs.commonElements(edgesA, edgesB))
             res = 1
-            for l, s in zip(edgesA + edgesB, shapeA + shapeB):
-                if (l in clb):
-                    if (not diagonal):
-                        res *= xplib.xp.sqrt(s)
-                    # if single diagonal: then the cost should be output shape
-                else:
-                    res *= s 
-
-            return int(res + 0.5)
+            for l, s in zip(edgesA, shapeA):
+                # if single diagonal: then the cost should be output shape
+                if (not diagonal) or (l not in clb):
+                    res *= s
+            for l, s in zip(edgesB, shapeB):
+                # shared edges are already counted in edgesA
+                if (l not in clb):
+                    res *= s
+
+            return int(res)
 
         def getCostTypical(tsA, tsB):
             edgesA, _, diagonalA = self.contractRes[tsA]
-- 
2.43.0


From 1a509200c55a397e430f32d228dc01fedecfa00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 35/35] fix: the total cost of a contraction is an exact
 integer, as documented

---
 src/CTL/tensor/contract/optimalContract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTL/tensor/contract/optimalContract.py b/src/CTL/tensor/contract/optimalContract.py
index 8245caa..5998088 100644
--- a/src/CTL/tensor/contract/optimalContract.py
+++ b/src/CTL/tensor/contract/optimalContract.py
@@ -222,7 +222,7 @@ def contractAndCostWithSequence(tensorList, seq = None, bf = False, typicalDim =
         else:
             seq = generateOptimalSequence(tensorList, bf = bf, typicalDim = typicalDim)
         # print(seq)
-    totalCost = 0.0
+    totalCost = 0
     totalLevel = 0
 
     if (not inplace):
-- 
2.43.0

