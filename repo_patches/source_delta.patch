From 60a3b87dcffbe9b929cb99b0e5b349c6041c790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 001/178] fix: repeat no longer fails on points or features
 with default names

---
 nimble/core/data/axis.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 636551e..a86313f 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -819,23 +819,27 @@ class Axis(ABC):
             namesToRepeat = ftNames
             ptNames = self._base.points._getNamesNoGeneration()
 
+        def copyName(name, copyIdx):
+            # default names remain default names in every copy
+            return None if name is None else name + "_" + str(copyIdx + 1)
+
         if copyVectorByVector and namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for idx, name in enumerate(origNames):
                 for i in range(totalCopies):
                     currIdx = (totalCopies * idx) + i
                     if currIdx < len(origNames):
-                        namesToRepeat[currIdx] = name + "_" + str(i + 1)
+                        namesToRepeat[currIdx] = copyName(name, i)
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(copyName(name, i))
         elif namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for i in range(totalCopies):
                 for idx, name in enumerate(origNames):
                     if i == 0:
-                        namesToRepeat[idx] = name + "_" + str(i + 1)
+                        namesToRepeat[idx] = copyName(name, i)
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(copyName(name, i))
 
         ret = createDataNoValidation(self._base.getTypeString(), repeated,
                                      pointNames=ptNames, featureNames=ftNames)
-- 
2.43.0


From 0acf10c8fbe8dc787e46b2f20592329b35a737eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 002/178] fix: setting values by slice or list of identifiers

---
 nimble/core/data/base.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 99cefb1..792ab45 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -45,7 +45,7 @@ from nimble.exceptions import InvalidArgumentValueCombination
 from nimble.core.logger import handleLogging, LogID
 from nimble.match import QueryString
 from nimble._utility import cloudpickle, h5py, plt, IPython, pd
-from nimble._utility import isDatetime
+from nimble._utility import isDatetime, isAllowedSingleElement
 from nimble._utility import tableString, prettyListString, quoteStrings
 from nimble._utility import _getStatsFunction, acceptedStats
 from .stretch import Stretch
@@ -2255,11 +2255,32 @@ class Base(ABC):
         if single_x and single_y:
             self._setitem_implementation(x, y, value)
         else:
-            for i in x:
-                for j in y:
-                    self._setitem_implementation(i, j, value)
-        
-    
+            # None is a full slice
+            xIndices = [x] if single_x else x
+            yIndices = [y] if single_y else y
+            if xIndices is None:
+                xIndices = list(range(len(self.points)))
+            if yIndices is None:
+                yIndices = list(range(len(self.features)))
+
+            shape = (len(xIndices), len(yIndices))
+            if isinstance(value, Base):
+                value = value.copy('pythonlist')
+            if isAllowedSingleElement(value):
+                values = np.empty(shape, dtype=np.object_)
+                values[:] = value
+            else:
+                values = np.array(value, dtype=np.object_)
+                if values.size != shape[0] * shape[1]:
+                    msg = "The number of values must match the size of the "
+                    msg += f"selection ({shape[0] * shape[1]})"
+                    raise InvalidArgumentValue(msg)
+                values = values.reshape(shape)
+
+            for i, xIdx in enumerate(xIndices):
+                for j, yIdx in enumerate(yIndices):
+                    self._setitem_implementation(xIdx, yIdx, values[i, j])
+
     def pointView(self, identifier):
         """
         A read-only view of a single point.
-- 
2.43.0


From 1d052e6afb3b9f366a64c69bcdb0a5271450a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 003/178] fix: views cannot be modified through item assignment

---
 nimble/core/data/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 4e36deb..3ff30df 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -231,6 +231,10 @@ class BaseView(Base, metaclass=ABCMeta):
     ###############################################################
     ###############################################################
 
+    @baseExceptionDoc
+    def __setitem__(self, key, value):
+        readOnlyException("__setitem__")
+
     @baseExceptionDoc
     def __imatmul__(self, other):
         readOnlyException("__imatmul__")
-- 
2.43.0


From fc3d9031dac8a56b4158ff1f5d1a4344270dd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 004/178] fix: item assignment does not cast the value to the
 object's dtype

---
 nimble/core/data/_dataHelpers.py | 3 +++
 nimble/core/data/matrix.py       | 2 +-
 nimble/core/data/sparse.py       | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index ce95dca..59e176f 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1166,6 +1166,9 @@ def modifyNumpyArrayValue(arr, index, newVal):
         arr = arr.astype(np.object_)
     elif floatNewVal and arr.dtype not in (np.floating, np.object_):
         arr = arr.astype(np.float64)
+    elif (arr.dtype == np.bool_
+          and not isinstance(newVal, (bool, np.bool_))):
+        arr = arr.astype(np.int_)
 
     arr[index] = newVal
 
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 0fd5a76..3d13034 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -401,7 +401,7 @@ class Matrix(Base):
         return self._data[x, y]
     
     def _setitem_implementation(self, x, y, value):
-        self._data[x, y] = value
+        self._data = modifyNumpyArrayValue(self._data, (x, y), value)
 
     def _view_implementation(self, pointStart, pointEnd, featureStart,
                              featureEnd, dropDimension):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 45605e8..42567a5 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -846,7 +846,9 @@ class Sparse(Base):
             k = np.searchsorted(offAxis[start:end], offAxisVal) + start
             if k < end and offAxis[k] == offAxisVal:
                 if value != 0:
-                    self._data.data[k] = value  # Update existing entry
+                    # Update existing entry
+                    self._data.data = modifyNumpyArrayValue(self._data.data,
+                                                            k, value)
                 else:
                     # Remove entry if value is zero (maintain sparsity)
                     self._data.data = np.delete(self._data.data, k)
-- 
2.43.0


From 1d2f39713dc0f29ba3cf34b06e462c19c88594b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 005/178] fix: renaming keeps names and indices one-to-one

---
 nimble/core/data/axis.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index a86313f..84654b9 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -254,6 +254,10 @@ class Axis(ABC):
                     msg = "Indices must be within 0 to "
                     msg += "len(self." + self._axis + "s) - 1"
                     raise InvalidArgumentValue(msg)
+                if reverseMap[value] is not None:
+                    msg = "Cannot input two names for the same index: "
+                    msg += f"{reverseMap[value]}, {name}"
+                    raise InvalidArgumentValue(msg)
 
                 reverseMap[value] = name
 
@@ -288,10 +292,17 @@ class Axis(ABC):
                         oldName = self.namesInverse[index]
                     oldNames.append(oldName)
 
-                old_dict = dict(zip(oldNames,indices))
-                assignments_dict = dict(zip(assignments, indices))
+                given = [name for name in assignments if name is not None]
+                if (len(set(given)) != len(given)
+                        or len(set(indices)) != len(indices)):
+                    msg = "Neither the new names nor the identifiers of the "
+                    msg += "names being changed can contain duplicates"
+                    raise InvalidArgumentValue(msg)
+
+                # new names of None can repeat
+                newNames = list(zip(assignments, indices))
                  # iterate through list of assignments, // how do you match this with old identifiers?
-                for name, index in assignments_dict.items():
+                for name, index in newNames:
                     # verifying that none of the new assignments is used previously
                     if name in self.names:
                         if self.namesInverse[index] == name:
@@ -302,10 +313,10 @@ class Axis(ABC):
                         msg = "New names assigned must be strings or None"
                         raise InvalidArgumentValue(msg)
 
-                for name, index in old_dict.items():
+                for name in oldNames:
                     if name is not None:
                         del self.names[name]
-                for name, index in assignments_dict.items():
+                for name, index in newNames:
                     self.namesInverse[index] = name
                     if name is not None:
                         self.names[name] = index
-- 
2.43.0


From 3a5186c1c10717c1e4cb4f5552c04bde6c3eb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 006/178] fix: name queries on axes without names or length

---
 nimble/core/data/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 84654b9..4be4500 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -362,13 +362,13 @@ class Axis(ABC):
         return identifier
 
     def _getIndices(self, names):
-        return [self.names[n] for n in names]
+        return [self._getIndexByName(n) for n in names]
 
     def _hasName(self, name):
         try:
             self._getIndex(name)
             return True
-        except KeyError:
+        except (KeyError, IndexError): # IndexError if this axis is empty
             return False
 
     def _getitem(self, key):
-- 
2.43.0


From a6c7a1149f53bf56f1750f98d7784eaeb4e4fead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 007/178] fix: a view of a view resolves names and indices in
 the view itself

---
 nimble/core/data/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 3ff30df..d5be9e3 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -119,25 +119,25 @@ class BaseView(Base, metaclass=ABCMeta):
         if pointStart is None:
             psAdj = None if len(self._source.points) == 0 else self._pStart
         else:
-            psIndex = self._source.points.getIndex(pointStart)
+            psIndex = self.points.getIndex(pointStart)
             psAdj = psIndex + self._pStart
 
         if pointEnd is None:
             peAdj = None if len(self._source.points) == 0 else self._pEnd - 1
         else:
-            peIndex = self._source.points.getIndex(pointEnd)
+            peIndex = self.points.getIndex(pointEnd)
             peAdj = peIndex + self._pStart
 
         if featureStart is None:
             fsAdj = None if len(self._source.features) == 0 else self._fStart
         else:
-            fsIndex = self._source.features.getIndex(featureStart)
+            fsIndex = self.features.getIndex(featureStart)
             fsAdj = fsIndex + self._fStart
 
         if featureEnd is None:
             feAdj = None if len(self._source.features) == 0 else self._fEnd - 1
         else:
-            feIndex = self._source.features.getIndex(featureEnd)
+            feIndex = self.features.getIndex(featureEnd)
             feAdj = feIndex + self._fStart
 
         return self._source._view_backend(psAdj, peAdj, fsAdj, feAdj,
-- 
2.43.0


From 4b44f96d75d62800c7eb381bf8dd603418230fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 008/178] fix: Sparse unique, collapse, expand and parse handle
 zeros and numeric data

---
 nimble/core/data/_dataHelpers.py | 14 ++++++++++
 nimble/core/data/sparseAxis.py   | 44 +++++++++++++++-----------------
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 59e176f..9a35364 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -21,6 +21,7 @@ the main data wrapper objects defined in this module.
 """
 
 import math
+import numbers
 import re
 from functools import wraps
 import os.path
@@ -460,6 +461,19 @@ def _limitAndConvertToArray(obj, points, features):
     return limited.copy(to='numpyarray')
 
 
+def sparseDataArray(values):
+    """
+    A one-dimensional array of the values for use in a scipy sparse matrix.
+
+    Recent versions of scipy do not allow sparse matrices with object dtype
+    so it is only used when the values do not have a numeric dtype.
+    """
+    ret = np.array(values, dtype=np.object_)
+    if all(isinstance(val, (numbers.Number, np.bool_)) for val in ret):
+        ret = np.array(ret.tolist())
+    return ret
+
+
 def denseCountUnique(obj, points=None, features=None):
     """
     Return dictionary of the unique elements and their values for dense
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index e71e67c..3637644 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -30,6 +30,7 @@ from .points import Points
 from .views import PointsView
 from .features import Features
 from .views import FeaturesView
+from ._dataHelpers import sparseDataArray
 
 class SparseAxis(Axis, metaclass=ABCMeta):
     """
@@ -357,7 +358,7 @@ class SparseAxis(Axis, metaclass=ABCMeta):
         if hasOffAxisNames:
             offAxisNames = getOffAxisNames()
 
-        uniqueData = np.array(uniqueData, dtype=np.object_)
+        uniqueData = sparseDataArray(uniqueData)
         if self._isPoint:
             shape = (axisCount, len(self._base.features))
             uniqueCoo = scipy.sparse.coo_matrix(
@@ -399,28 +400,22 @@ class SparsePoints(SparseAxis, Points):
         tmpRow = []
         tmpCol = []
         for ptIdx in range(len(self)):
-            inRetain = [val in retainIndices for val in col]
-            inCollapse = [val in collapseIndices for val in col]
-            retainData = data[(row == ptIdx) & (inRetain)]
-            retainCol = col[(row == ptIdx) & (inRetain)]
-            collapseData = data[(row == ptIdx) & (inCollapse)]
-            sort = np.argsort(collapseIndices)
-            collapseData = collapseData[sort]
-            for idx, value in enumerate(collapseData):
-                tmpData.extend(retainData)
+            inPoint = row == ptIdx
+            # zero values are not stored
+            nonZero = dict(zip(col[inPoint], data[inPoint]))
+            for idx, collapseIdx in enumerate(collapseIndices):
+                values = [nonZero.get(i, 0) for i in retainIndices]
+                values.append(currFtNames[idx])
+                values.append(nonZero.get(collapseIdx, 0))
+                tmpData.extend(values)
                 tmpRow.extend([ptIdx * len(featuresToCollapse) + idx]
-                              * len(retainData))
-                tmpCol.extend(list(range(len(retainCol))))
-                tmpData.append(currFtNames[idx])
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
-                tmpCol.append(numRetFeatures - 2)
-                tmpData.append(value)
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
-                tmpCol.append(numRetFeatures - 1)
-
-        tmpData = np.array(tmpData, dtype=np.object_)
+                              * len(values))
+                tmpCol.extend(range(len(values)))
+
+        tmpData = sparseDataArray(tmpData)
         self._base._data = scipy.sparse.coo_matrix(
             (tmpData, (tmpRow, tmpCol)), shape=(numRetPoints, numRetFeatures))
+        self._base._data.eliminate_zeros()
         self._base._resetSorted()
 
     def _combineByExpandingFeatures_implementation(
@@ -442,10 +437,11 @@ class SparsePoints(SparseAxis, Points):
             tmpRow.extend([idx for _ in range(len(point) + numNewFts)])
             tmpCol.extend(list(range(numRetFeatures)))
 
-        tmpData = np.array(tmpData, dtype=np.object_)
+        tmpData = sparseDataArray(tmpData)
         shape = (len(uniqueDict), numRetFeatures)
         self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
                                                    shape=shape)
+        self._base._data.eliminate_zeros()
         self._base._resetSorted()
 
 
@@ -490,7 +486,7 @@ class SparseFeatures(SparseAxis, Features):
     def _splitByParsing_implementation(self, featureIndex, splitList,
                                        numRetFeatures, numResultingFts):
         keep = self._base._data.col != featureIndex
-        tmpData = self._base._data.data[keep]
+        tmpData = self._base._data.data[keep].astype(np.object_)
         tmpRow = self._base._data.row[keep]
         tmpCol = self._base._data.col[keep]
 
@@ -501,6 +497,7 @@ class SparseFeatures(SparseAxis, Features):
             newFeat = []
             for lst in splitList:
                 newFeat.append(lst[idx])
+            newFeat = np.array(newFeat, dtype=np.object_)
             tmpData = np.concatenate((tmpData, newFeat))
             newRows = list(range(len(self._base.points)))
             tmpRow = np.concatenate((tmpRow, newRows))
@@ -508,10 +505,11 @@ class SparseFeatures(SparseAxis, Features):
                        in range(len(self._base.points))]
             tmpCol = np.concatenate((tmpCol, newCols))
 
-        tmpData = np.array(tmpData, dtype=np.object_)
+        tmpData = sparseDataArray(tmpData)
         shape = (len(self._base.points), numRetFeatures)
         self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
                                                    shape=shape)
+        self._base._data.eliminate_zeros()
         self._base._resetSorted()
 
 
-- 
2.43.0


From 44f9bb5d1c44c703772928614449237577681617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 009/178] fix: element calculations keep the type of every
 result, use the requested subset

---
 nimble/core/data/_dataHelpers.py | 31 ++++++++++++++++++++++----
 nimble/core/data/base.py         | 29 ++++++++++---------------
 nimble/core/data/sparse.py       | 37 ++++++++++++++++++++------------
 3 files changed, 61 insertions(+), 36 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 9a35364..5922612 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -461,6 +461,16 @@ def _limitAndConvertToArray(obj, points, features):
     return limited.copy(to='numpyarray')
 
 
+def narrowObjectArray(array):
+    """
+    Convert an array of object dtype to a numeric dtype that can represent
+    every value, otherwise the array is returned as is.
+    """
+    if all(isinstance(val, (numbers.Number, np.bool_)) for val in array.flat):
+        return np.array(array.tolist()).reshape(array.shape)
+    return array
+
+
 def sparseDataArray(values):
     """
     A one-dimensional array of the values for use in a scipy sparse matrix.
@@ -468,10 +478,23 @@ def sparseDataArray(values):
     Recent versions of scipy do not allow sparse matrices with object dtype
     so it is only used when the values do not have a numeric dtype.
     """
-    ret = np.array(values, dtype=np.object_)
-    if all(isinstance(val, (numbers.Number, np.bool_)) for val in ret):
-        ret = np.array(ret.tolist())
-    return ret
+    return narrowObjectArray(np.array(values, dtype=np.object_))
+
+
+def vectorizeElementFunction(func):
+    """
+    Generate a function applying func to a single value or to each element
+    of an array. The type of the output accommodates every returned value.
+    """
+    vectorized = np.vectorize(func, otypes=[np.object_])
+
+    @wraps(func)
+    def wrapped(values):
+        if np.ndim(values) == 0:
+            return func(values)
+        return narrowObjectArray(vectorized(values))
+
+    return wrapped
 
 
 def denseCountUnique(obj, points=None, features=None):
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 792ab45..f0678df 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -49,6 +49,7 @@ from nimble._utility import isDatetime, isAllowedSingleElement
 from nimble._utility import tableString, prettyListString, quoteStrings
 from nimble._utility import _getStatsFunction, acceptedStats
 from .stretch import Stretch
+from ._dataHelpers import vectorizeElementFunction
 from ._dataHelpers import formatIfNeeded, validateInputString
 from ._dataHelpers import constructIndicesList
 from ._dataHelpers import createListOfDict, createDictOfList
@@ -1090,14 +1091,14 @@ class Base(ABC):
             optType = self.getTypeString()
         # Use vectorized for functions with oneArg
         if calculator.oneArg:
-            vectorized = np.vectorize(calculator)
+            vectorized = vectorizeElementFunction(calculator)
             values = self._calculate_implementation(
                 vectorized, points, features, preserveZeros)
 
         else:
-            if not points:
+            if points is None:
                 points = list(range(len(self.points)))
-            if not features:
+            if features is None:
                 features = list(range(len(self.features)))
             # if unable to vectorize, iterate over each point
             values = np.empty([len(points), len(features)])
@@ -1126,24 +1127,16 @@ class Base(ABC):
 
     def _calculate_genericVectorized(self, function, points, features):
         # need points/features as arrays for indexing
-        if points:
-            points = np.array(points)
-        else:
-            points = np.array(range(len(self.points)))
-        if features:
-            features = np.array(features)
-        else:
-            features = np.array(range(len(self.features)))
+        if points is None:
+            points = range(len(self.points))
+        if features is None:
+            features = range(len(self.features))
+        points = np.array(points, dtype=int)
+        features = np.array(features, dtype=int)
         toCalculate = self.copy(to='numpyarray')
         # array with only desired points and features
         toCalculate = toCalculate[points[:, None], features]
-        try:
-            return function(toCalculate)
-        except Exception: # pylint: disable=broad-except
-            # change output type of vectorized function to object to handle
-            # nonnumeric data
-            function.otypes = [np.object_]
-            return function(toCalculate)
+        return function(toCalculate)
 
     @limitedTo2D
     def countElements(self, condition):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 42567a5..39e1be7 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -38,6 +38,7 @@ from .views import BaseView
 from .sparseAxis import SparsePoints, SparsePointsView
 from .sparseAxis import SparseFeatures, SparseFeaturesView
 from .stretch import StretchSparse
+from ._dataHelpers import sparseDataArray
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
@@ -161,9 +162,13 @@ class Sparse(Base):
                 return None
 
             if toTransform.oneArg:
-                return toTransform(value)
+                ret = toTransform(value)
+            else:
+                ret = toTransform(value, pID, fID)
 
-            return toTransform(value, pID, fID)
+            # None indicates the value is not modified so cannot be returned
+            # when a missing value was the result of the transformation
+            return np.nan if ret is None else ret
 
         # perserveZeros is always False in this helper, skipNoneReturnValues
         # is being hijacked by the wrapper: even if it was False, Sparse can't
@@ -209,11 +214,7 @@ class Sparse(Base):
             preserveZeros = False
         # all data
         if preserveZeros and points is None and features is None:
-            try:
-                data = function(data)
-            except Exception: # pylint: disable=broad-except
-                function.otypes = [np.object_]
-                data = function(data)
+            data = function(data)
             shape = self._data.shape
             values = scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
             # note: even if function transforms nonzero values into zeros
@@ -221,17 +222,25 @@ class Sparse(Base):
             return values
         # subset of data
         if preserveZeros:
+            if points is None:
+                points = range(len(self.points))
+            if features is None:
+                features = range(len(self.features))
+            stored = {(i, j): val for i, j, val in zip(row, col, data)}
             dataSubset = []
             rowSubset = []
             colSubset = []
-            for idx, val in enumerate(data):
-                if row[idx] in points and col[idx] in features:
-                    rowSubset.append(row[idx])
-                    colSubset.append(col[idx])
-                    dataSubset.append(val)
-            dataSubset = function(dataSubset)
+            for pIdx, i in enumerate(points):
+                for fIdx, j in enumerate(features):
+                    if (i, j) in stored:
+                        rowSubset.append(pIdx)
+                        colSubset.append(fIdx)
+                        dataSubset.append(stored[i, j])
+            dataSubset = function(sparseDataArray(dataSubset))
             values = scipy.sparse.coo_matrix((dataSubset,
-                                              (rowSubset, colSubset)))
+                                              (rowSubset, colSubset)),
+                                             shape=(len(points),
+                                                    len(features)))
             # note: even if function transforms nonzero values into zeros
             # our init methods will filter them out from the data attribute
             return values
-- 
2.43.0


From c66192b1ed56fb69136ba531a9355d9ad1366247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 010/178] fix: collapsing and expanding features keep values,
 order and default names

---
 nimble/core/data/dataframeAxis.py | 23 +++++++++++------------
 nimble/core/data/listAxis.py      |  9 +++++----
 nimble/core/data/matrixAxis.py    |  5 +++--
 nimble/core/data/points.py        | 25 ++++++++++++++++---------
 nimble/core/data/sparseAxis.py    | 11 +++++++----
 5 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 5074e0c..89c17eb 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -213,13 +213,9 @@ class DataFramePoints(DataFrameAxis, Points):
         collapseData = self._base._asNumpyArray()[:, collapseIndices]
         retainData = self._base._asNumpyArray()[:, retainIndices]
 
-        collapseDtypes = (np.dtype(object), max(self._base._data.dtypes))
-        dtypes = []
-        for i in range(len(self._base.features)):
-            if i in retainIndices:
-                dtypes.append(self._base._data.dtypes.iloc[i])
-            elif i == collapseIndices[0]:
-                dtypes.extend(collapseDtypes)
+        # the collapsed features follow the retained features
+        dtypes = [self._base._data.dtypes.iloc[i] for i in retainIndices]
+        dtypes.extend((np.dtype(object), max(self._base._data.dtypes)))
 
         tmpData = fillArrayWithCollapsedFeatures(
             featuresToCollapse, retainData, collapseData, currNumPoints,
@@ -229,22 +225,25 @@ class DataFramePoints(DataFrameAxis, Points):
         self._base._setDtypes(dtypes)
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
         uncombined = [dtype for i, dtype in self._base._data.dtypes.items()
                       if i not in valuesIdx + [namesIdx]]
         combined = list(self._base._data.dtypes.iloc[valuesIdx])
-        dtypes = (uncombined[:namesIdx]
+        dtypes = (uncombined[:insertIdx]
                   + combined * len(uniqueNames)
-                  + uncombined[namesIdx:])
+                  + uncombined[insertIdx:])
 
-        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, insertIdx,
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
         self._base._data = pd.DataFrame(tmpData)
         if tuple(self._base._data.dtypes) != tuple(dtypes):
             for (i, col), dtype in zip(self._base._data.items(), dtypes):
-                if col.dtype !=  dtype:
+                # expanding can introduce missing values
+                if col.dtype != dtype and not (
+                        col.isnull().any() and dtype.kind in 'biu'):
                     self._base._data[i] = col.astype(dtype)
 
 
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index c27894f..bc4d03b 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -224,15 +224,16 @@ class ListPoints(ListAxis, Points):
             retainData.append(retainFeatures)
 
         tmpData = fillArrayWithCollapsedFeatures(
-            featuresToCollapse, retainData, np.array(collapseData),
-            currNumPoints, currFtNames, numRetPoints, numRetFeatures)
+            featuresToCollapse, retainData,
+            np.array(collapseData, dtype=np.object_), currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._data = tmpData.tolist()
         self._base._numFeatures = numRetFeatures
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
-        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, insertIdx,
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
diff --git a/nimble/core/data/matrixAxis.py b/nimble/core/data/matrixAxis.py
index 4b3c33a..59b472f 100644
--- a/nimble/core/data/matrixAxis.py
+++ b/nimble/core/data/matrixAxis.py
@@ -208,8 +208,9 @@ class MatrixPoints(MatrixAxis, Points):
         self._base._data = numpy2DArray(tmpData)
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
-        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, insertIdx,
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 64b8f6c..e26d9d3 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -2001,7 +2001,8 @@ class Points(ABC):
             appendedPts = []
             for name in self.getNames():
                 for i in range(numCollapsed):
-                    appendedPts.append(f"{name}_{i}")
+                    appendedPts.append(None if name is None
+                                       else f"{name}_{i}")
             self.setNames(appendedPts, useLog=False)
 
 
@@ -2176,8 +2177,12 @@ class Points(ABC):
             for i in adjust:
                 prefixes[i] += '(' + type(uniqueNames[i]).__name__ + ')'
 
+        # the new features replace the feature with the names, its location
+        # changes when other removed features precede it
+        insertIdx = sum(idx < namesIdx for idx in uncombinedIdx)
         self._combineByExpandingFeatures_implementation(
-            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
+            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+            insertIdx)
 
         self._base._dims = [len(unique), numRetFeatures]
 
@@ -2189,10 +2194,10 @@ class Points(ABC):
             if numExpanded > 1:
                 for suffix in featuresWithValues:
                     if not isinstance(suffix, str):
-                        if self._base.features._namesCreated():
-                            suffix = self._base.features.getName(suffix)
-                        else:
-                            suffix = str(suffix)
+                        idx = self._base.features.getIndex(suffix)
+                        suffix = self._base.features.getName(idx)
+                        if suffix is None:
+                            suffix = str(idx)
                     concat = prefix + '_' + suffix
                     newFtNames.append(concat)
             else:
@@ -2201,11 +2206,12 @@ class Points(ABC):
         if self._base.features._namesCreated():
             origFts = self._base.features.getNames()
             keptFts = [origFts[i] for i in uncombinedIdx]
-            fNames = keptFts[:namesIdx] + newFtNames + keptFts[namesIdx:]
+            fNames = keptFts[:insertIdx] + newFtNames + keptFts[insertIdx:]
             self._base.features.setNames(fNames, useLog=False)
         else:
             for i, name in enumerate(newFtNames):
-                self._base.features.setNames( name, oldIdentifiers=namesIdx + i, useLog=False)
+                self._base.features.setNames(
+                    name, oldIdentifiers=insertIdx + i, useLog=False)
         if self._base.points._namesCreated():
             self.setNames(pNames, useLog=False)
 
@@ -2987,7 +2993,8 @@ class Points(ABC):
 
     @abstractmethod
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
         pass
 
     @abstractmethod
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index 3637644..e42b193 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -338,7 +338,9 @@ class SparseAxis(Axis, metaclass=ABCMeta):
             axisLoc = axisLocator == i
             # data values can look the same but have zeros in different places;
             # zip with offAxis to ensure the locations are the same as well
-            key = tuple(zip(data[axisLoc], offAxisLocator[axisLoc]))
+            # and missing values are considered equal
+            values = [np.nan if v != v else v for v in data[axisLoc]]
+            key = tuple(zip(values, offAxisLocator[axisLoc]))
             if key not in unique:
                 unique.add(key)
                 uniqueData.extend(data[axisLoc])
@@ -419,20 +421,21 @@ class SparsePoints(SparseAxis, Points):
         self._base._resetSorted()
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
+        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+        insertIdx):
         tmpData = []
         tmpRow = []
         tmpCol = []
         numExpanded = len(valuesIdx)
         numNewFts = len(uniqueNames) * numExpanded
         for idx, point in enumerate(uniqueDict):
-            tmpPoint = list(point[:namesIdx])
+            tmpPoint = list(point[:insertIdx])
             for name in uniqueNames:
                 if name in uniqueDict[point]:
                     tmpPoint.extend(uniqueDict[point][name])
                 else:
                     tmpPoint.extend([np.nan] * numExpanded)
-            tmpPoint.extend(point[namesIdx:])
+            tmpPoint.extend(point[insertIdx:])
             tmpData.extend(tmpPoint)
             tmpRow.extend([idx for _ in range(len(point) + numNewFts)])
             tmpCol.extend(list(range(numRetFeatures)))
-- 
2.43.0


From b693ac50e4b648cca9743fe783a5efc99396afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 011/178] fix: replaceRectangle default end and dtype, no
 header detection in computed values

---
 nimble/core/data/axis.py   |  3 ++-
 nimble/core/data/base.py   | 19 +++++++++++--------
 nimble/core/data/matrix.py |  9 +++++++--
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 4be4500..67f9b76 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -756,7 +756,8 @@ class Axis(ABC):
                 if redRet is not None:
                     (redKey, redValue) = redRet
                     ret.append([redKey, redValue])
-            ret = nimble.data(ret, returnType=self._base.getTypeString(),
+            ret = nimble.data(ret, pointNames=False, featureNames=False,
+                              returnType=self._base.getTypeString(),
                               useLog=False)
 
         ret._absPath = self._base.absolutePath
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f0678df..8ca5b9f 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -584,10 +584,8 @@ class Base(ABC):
                                   useLog=False)
         ftNames = []
 
-        if replace.features._namesCreated():
-            prefix = replace.features.getName(0) + "="
-        else:
-            prefix = str(index) + '='
+        prefix = replace.features.getName(0)
+        prefix = str(index) + '=' if prefix is None else prefix + '='
         for val in uniqueVals:
             ftNames.append(prefix + str(val))
         binaryObj.features.setNames(ftNames, useLog=False)
@@ -1117,7 +1115,8 @@ class Base(ABC):
                     fIdx += 1
                 pIdx += 1
 
-        ret = nimble.data(values, returnType=optType, treatAsMissing=[None],
+        ret = nimble.data(values, pointNames=False, featureNames=False,
+                          returnType=optType, treatAsMissing=[None],
                           useLog=False)
 
         ret._absPath = self.absolutePath
@@ -3864,9 +3863,9 @@ class Base(ABC):
     def _copy_pythonList(self, rowsArePoints):
         ret = self._copy_implementation('pythonlist')
         if len(self._dims) > 2:
-            ret = np.reshape(ret, self._dims).tolist()
+            ret = np.array(ret, dtype=np.object_).reshape(self._dims).tolist()
         if not rowsArePoints:
-            ret = np.transpose(ret).tolist()
+            ret = np.array(ret, dtype=np.object_).transpose().tolist()
         return ret
 
     def _copy_nestedPythonTypes(self, to, rowsArePoints):
@@ -3978,7 +3977,7 @@ class Base(ABC):
                         start=pointStart, end=pointEnd, rangeLen=prange)
                     raise InvalidArgumentValueCombination(msg)
             if featureEnd is None:
-                feIndex = fsIndex + len(replaceWith.points) - 1
+                feIndex = fsIndex + len(replaceWith.features) - 1
             else:
                 feIndex = self.features.getIndex(featureEnd)
                 frange = (feIndex - fsIndex) + 1
@@ -3987,6 +3986,10 @@ class Base(ABC):
                         axis='feature', axisLen=len(replaceWith.features),
                         start=featureStart, end=featureEnd, rangeLen=frange)
                     raise InvalidArgumentValueCombination(msg)
+            if peIndex >= len(self.points) or feIndex >= len(self.features):
+                msg = "replaceWith extends beyond the final point or feature "
+                msg += "of this object"
+                raise InvalidArgumentValueCombination(msg)
             if replaceWith.getTypeString() != self.getTypeString():
                 replaceWith = replaceWith.copy(to=self.getTypeString())
         elif looksNumeric(replaceWith):
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 3d13034..b6b7cec 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -225,11 +225,16 @@ class Matrix(Base):
     def _replaceRectangle_implementation(self, replaceWith, pointStart,
                                          featureStart, pointEnd, featureEnd):
         if not isinstance(replaceWith, Base):
-            values = replaceWith * np.ones((pointEnd - pointStart + 1,
-                                            featureEnd - featureStart + 1))
+            values = np.full((pointEnd - pointStart + 1,
+                              featureEnd - featureStart + 1), replaceWith)
         else:
             values = replaceWith._data
 
+        # ensure the dtype can represent the new values
+        if values.dtype != self._data.dtype:
+            dtype = np.result_type(self._data.dtype, values.dtype)
+            self._data = self._data.astype(dtype)
+
         # numpy is exclusive
         pointEnd += 1
         featureEnd += 1
-- 
2.43.0


From 82a5c8ee844c5aad77a4b200ab11bb9b78004b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 012/178] fix: Sparse replaceRectangle, modulo and binary
 features; DataFrame merge order

---
 nimble/core/data/_dataHelpers.py |  27 +++-
 nimble/core/data/dataframe.py    |   7 +
 nimble/core/data/sparse.py       | 250 ++++++-------------------------
 3 files changed, 72 insertions(+), 212 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 5922612..622648a 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -273,8 +273,10 @@ def denseAxisUniqueArray(obj, axis):
     unique = set()
     uniqueIndices = []
     for i, values in enumerate(data):
-        if tuple(values) not in unique:
-            unique.add(tuple(values))
+        # missing values are considered equal
+        values = tuple(np.nan if v != v else v for v in values)
+        if values not in unique:
+            unique.add(values)
             uniqueIndices.append(i)
     uniqueData = data[uniqueIndices]
 
@@ -342,9 +344,11 @@ def fillArrayWithCollapsedFeatures(featuresToCollapse, retainData,
     implementations.
     """
     fill = np.empty((numRetPoints, numRetFeatures), dtype=np.object_)
+    retainData = np.array(retainData, dtype=np.object_)
     fill[:, :-2] = np.repeat(retainData, len(featuresToCollapse), axis=0)
 
     # stack feature names repeatedly to create new feature
+    currFtNames = np.array(currFtNames, dtype=np.object_)
     namesAsFeature = np.tile(currFtNames, (1, currNumPoints))
     fill[:, -2] = namesAsFeature
     # flatten values by row then reshape into new feature
@@ -461,13 +465,18 @@ def _limitAndConvertToArray(obj, points, features):
     return limited.copy(to='numpyarray')
 
 
-def narrowObjectArray(array):
+def narrowObjectArray(array, noneAsNan=False):
     """
     Convert an array of object dtype to a numeric dtype that can represent
-    every value, otherwise the array is returned as is.
+    every value, otherwise the array is returned as is. None can be
+    converted to the numeric missing value.
     """
-    if all(isinstance(val, (numbers.Number, np.bool_)) for val in array.flat):
-        return np.array(array.tolist()).reshape(array.shape)
+    if noneAsNan:
+        values = [np.nan if val is None else val for val in array.flat]
+    else:
+        values = array.ravel().tolist()
+    if all(isinstance(val, (numbers.Number, np.bool_)) for val in values):
+        return np.array(values).reshape(array.shape)
     return array
 
 
@@ -478,7 +487,7 @@ def sparseDataArray(values):
     Recent versions of scipy do not allow sparse matrices with object dtype
     so it is only used when the values do not have a numeric dtype.
     """
-    return narrowObjectArray(np.array(values, dtype=np.object_))
+    return narrowObjectArray(np.array(values, dtype=np.object_), True)
 
 
 def vectorizeElementFunction(func):
@@ -522,6 +531,8 @@ def denseCountUnique(obj, points=None, features=None):
         mapping = {}
         nextIdx = [0]
         def mapper(val):
+            if val != val:
+                val = np.nan
             if val in mapping:
                 return mapping[val]
 
@@ -529,7 +540,7 @@ def denseCountUnique(obj, points=None, features=None):
             nextIdx[0] += 1
             return mapping[val]
 
-        vectorMap = np.vectorize(mapper)
+        vectorMap = np.vectorize(mapper, otypes=[int])
         array = vectorMap(array)
         intMap = {v: k for k, v in mapping.items()}
         vals, counts = np.unique(array, return_counts=True)
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e4b15e7..707d802 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -359,8 +359,15 @@ class DataFrame(Base):
                 idxRange = range(self.shape[0], self.shape[0] + other.shape[0])
                 tmpDfR.index = list(idxRange)
 
+            if point == 'outer':
+                # pandas may sort the index for outer merges
+                order = list(self._data.index)
+                left = set(order)
+                order.extend(n for n in tmpDfR.index if n not in left)
             self._data = self._data.merge(tmpDfR, how=point, left_index=True,
                                           right_index=True)
+            if point == 'outer':
+                self._data = self._data.reindex(order)
         else:
             onIdxL = self._data.columns.get_loc(onFeature)
             onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 39e1be7..c26bd6f 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -38,7 +38,7 @@ from .views import BaseView
 from .sparseAxis import SparsePoints, SparsePointsView
 from .sparseAxis import SparseFeatures, SparseFeaturesView
 from .stretch import StretchSparse
-from ._dataHelpers import sparseDataArray
+from ._dataHelpers import sparseDataArray, narrowObjectArray
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
@@ -214,7 +214,7 @@ class Sparse(Base):
             preserveZeros = False
         # all data
         if preserveZeros and points is None and features is None:
-            data = function(data)
+            data = sparseDataArray(function(data))
             shape = self._data.shape
             values = scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
             # note: even if function transforms nonzero values into zeros
@@ -236,7 +236,8 @@ class Sparse(Base):
                         rowSubset.append(pIdx)
                         colSubset.append(fIdx)
                         dataSubset.append(stored[i, j])
-            dataSubset = function(sparseDataArray(dataSubset))
+            dataSubset = sparseDataArray(
+                function(sparseDataArray(dataSubset)))
             values = scipy.sparse.coo_matrix((dataSubset,
                                               (rowSubset, colSubset)),
                                              shape=(len(points),
@@ -245,7 +246,10 @@ class Sparse(Base):
             # our init methods will filter them out from the data attribute
             return values
         # zeros not preserved
-        return self._calculate_genericVectorized(function, points, features)
+        ret = self._calculate_genericVectorized(function, points, features)
+        if ret.dtype == np.object_:
+            ret = narrowObjectArray(ret, True)
+        return ret
 
     def _countUnique_implementation(self, points, features):
         uniqueCount = {}
@@ -416,158 +420,36 @@ class Sparse(Base):
 
     def _replaceRectangle_implementation(self, replaceWith, pointStart,
                                          featureStart, pointEnd, featureEnd):
-        # sort values or call helper as needed
-        constant = not isinstance(replaceWith, Base)
-        if constant:
-            if replaceWith == 0:
-                self._replaceRectangle_zeros_implementation(
-                    pointStart, featureStart, pointEnd, featureEnd)
-                return
-        else:
-            replaceWith._sortInternal('point')
-
-        # this has to be after the possible call to
-        # _replaceRectangle_zeros_implementation; unnecessary for that helper
-        self._sortInternal('point', setIndices=True)
-
-        selfIdx = 0
-        valsIdx = 0
-        copyIndex = 0
-        toAddData = []
-        toAddRow = []
-        toAddCol = []
-        selfEnd = self._sorted['indices'][pointEnd + 1]
-        if constant:
-            valsEnd = ((pointEnd - pointStart + 1)
-                       * (featureEnd - featureStart + 1))
+        row = self._data.row
+        col = self._data.col
+        if isinstance(replaceWith, Base):
+            values = replaceWith._getSparseData()
+            newData = values.data
+            newRow = values.row + pointStart
+            newCol = values.col + featureStart
+        elif replaceWith == 0:
+            newData, newRow, newCol = [], [], []
         else:
-            valsEnd = len(replaceWith._data.data)
-
-        # Adjust selfIdx so that it begins at the values that might need to be
-        # replaced, or, if no such values exist, set selfIdx such that the main
-        # loop will ignore the contents of self.
-        if len(self._data.data) > 0:
-            selfIdx = self._sorted['indices'][pointStart]
-
-            pcheck = self._data.row[selfIdx]
-            fcheck = self._data.col[selfIdx]
-            # the condition in the while loop is a natural break, if it isn't
-            # satisfied then selfIdx will be exactly where we want it
-            while fcheck < featureStart or fcheck > featureEnd:
-                # this condition is an unatural break, when it is satisfied,
-                # that means no value of selfIdx will point into the desired
-                # values
-                if pcheck > pointEnd or selfIdx == len(self._data.data) - 1:
-                    selfIdx = selfEnd
-                    break
-
-                selfIdx += 1
-                pcheck = self._data.row[selfIdx]
-                fcheck = self._data.col[selfIdx]
-
-            copyIndex = selfIdx
-
-        # Walk full contents of both, modifying, shifing, or setting aside
-        # values as needed. We will only ever increment one of selfIdx or
-        # valsIdx at a time, meaning if there are matching entries, we will
-        # encounter them. Due to the sorted precondition, if the location in
-        # one object is less than the location in the other object, the lower
-        # one CANNOT have a match.
-        while selfIdx < selfEnd or valsIdx < valsEnd:
-            if selfIdx < selfEnd:
-                locationSP = self._data.row[selfIdx]
-                locationSF = self._data.col[selfIdx]
-            else:
-                # we want to use unreachable values as sentials, so we + 1
-                # since we're using inclusive endpoints
-                locationSP = pointEnd + 1
-                locationSF = featureEnd + 1
-
-            # adjust 'values' locations into the scale of the calling object
-            locationVP = pointStart
-            locationVF = featureStart
-            if constant:
-                vData = replaceWith
-                # uses truncation of int division
-                locationVP += valsIdx / (featureEnd - featureStart + 1)
-                locationVF += valsIdx % (featureEnd - featureStart + 1)
-            elif valsIdx >= valsEnd:
-                locationVP += pointEnd + 1
-                locationVF += featureEnd + 1
-            else:
-                vData = replaceWith._data.data[valsIdx]
-                locationVP += replaceWith._data.row[valsIdx]
-                locationVF += replaceWith._data.col[valsIdx]
-
-            pCmp = locationSP - locationVP
-            fCmp = locationSF - locationVF
-            trueCmp = pCmp if pCmp != 0 else fCmp
-
-            # Case: location at index into self is higher than location
-            # at index into values. No matching entry in self;
-            # copy if space, or record to be added at end.
-            if trueCmp > 0:
-                # can only copy into self if there is open space
-                if copyIndex < selfIdx:
-                    self._data.data[copyIndex] = vData
-                    self._data.row[copyIndex] = locationVP
-                    self._data.col[copyIndex] = locationVF
-                    copyIndex += 1
-                else:
-                    toAddData.append(vData)
-                    toAddRow.append(locationVP)
-                    toAddCol.append(locationVF)
-
-                #increment valsIdx
-                valsIdx += 1
-            # Case: location at index into other is higher than location at
-            # index into self. no matching entry in values - fill this entry
-            # in self with zero (by shifting past it)
-            elif trueCmp < 0:
-                # need to do cleanup if we're outside of the relevant bounds
-                if locationSF < featureStart or locationSF > featureEnd:
-                    self._data.data[copyIndex] = self._data.data[selfIdx]
-                    self._data.row[copyIndex] = self._data.row[selfIdx]
-                    self._data.col[copyIndex] = self._data.col[selfIdx]
-                    copyIndex += 1
-                selfIdx += 1
-            # Case: indices point to equal locations.
-            else:
-                self._data.data[copyIndex] = vData
-                self._data.row[copyIndex] = locationVP
-                self._data.col[copyIndex] = locationVF
-                copyIndex += 1
-
-                # increment both??? or just one?
-                selfIdx += 1
-                valsIdx += 1
-
-        # Now we have to walk through the rest of self, finishing the copying
-        # shift if necessary
-        if copyIndex != selfIdx:
-            while selfIdx < len(self._data.data):
-                self._data.data[copyIndex] = self._data.data[selfIdx]
-                self._data.row[copyIndex] = self._data.row[selfIdx]
-                self._data.col[copyIndex] = self._data.col[selfIdx]
-                selfIdx += 1
-                copyIndex += 1
+            numPts = pointEnd - pointStart + 1
+            numFts = featureEnd - featureStart + 1
+            newData = np.full(numPts * numFts, replaceWith)
+            newRow = np.repeat(range(pointStart, pointEnd + 1), numFts)
+            newCol = np.tile(range(featureStart, featureEnd + 1), numPts)
+
+        outside = ((row < pointStart) | (row > pointEnd)
+                   | (col < featureStart) | (col > featureEnd))
+        data = self._data.data[outside]
+        if len(newData):
+            # the dtype will be able to represent all of the values
+            data = np.concatenate((data, newData))
+            row = np.concatenate((row[outside], newRow))
+            col = np.concatenate((col[outside], newCol))
         else:
-            copyIndex = len(self._data.data)
-
-        newData = np.empty(copyIndex + len(toAddData),
-                           dtype=self._data.data.dtype)
-        newData[:copyIndex] = self._data.data[:copyIndex]
-        newData[copyIndex:] = toAddData
-        newRow = np.empty(copyIndex + len(toAddRow))
-        newRow[:copyIndex] = self._data.row[:copyIndex]
-        newRow[copyIndex:] = toAddRow
-        newCol = np.empty(copyIndex + len(toAddCol))
-        newCol[:copyIndex] = self._data.col[:copyIndex]
-        newCol[copyIndex:] = toAddCol
-        shape = (len(self.points), len(self.features))
-        self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
-                                             shape)
+            row = row[outside]
+            col = col[outside]
 
+        self._data = scipy.sparse.coo_matrix((data, (row, col)),
+                                             shape=self._data.shape)
         self._resetSorted()
 
     def _flatten_implementation(self, order):
@@ -587,37 +469,6 @@ class Sparse(Base):
         # array down to size???
         pass
 
-    def _replaceRectangle_zeros_implementation(self, pointStart, featureStart,
-                                               pointEnd, featureEnd):
-        # walk through col listing and partition all data: extract, and kept,
-        # reusing the sparse matrix underlying structure to save space
-        copyIndex = 0
-
-        for lookIndex, lookData in enumerate(self._data.data):
-            currP = self._data.row[lookIndex]
-            currF = self._data.col[lookIndex]
-            # if it is in range we want to obliterate the entry by just passing
-            # it by and copying over it later
-            if (currP >= pointStart
-                    and currP <= pointEnd
-                    and currF >= featureStart
-                    and currF <= featureEnd):
-                pass
-            else:
-                self._data.data[copyIndex] = lookData
-                self._data.row[copyIndex] = self._data.row[lookIndex]
-                self._data.col[copyIndex] = self._data.col[lookIndex]
-                copyIndex += 1
-
-        # reinstantiate self
-        # (cannot reshape coo matrices, so cannot do this in place)
-        newData = self._data.data[0:copyIndex]
-        newRow = self._data.row[0:copyIndex]
-        newCol = self._data.col[0:copyIndex]
-        shape = (len(self.points), len(self.features))
-        self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
-                                             shape)
-
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
         self._sortInternal('feature')
@@ -799,6 +650,13 @@ class Sparse(Base):
             binaryRow.append(ptIdx)
             binaryCol.append(ftIdx)
             binaryData.append(1)
+        if 0 in uniqueIdx:
+            stored = set(self._data.row)
+            for ptIdx in range(len(self.points)):
+                if ptIdx not in stored:
+                    binaryRow.append(ptIdx)
+                    binaryCol.append(uniqueIdx[0])
+                    binaryData.append(1)
         shape = (len(self.points), len(uniqueIdx))
         binaryCoo = scipy.sparse.coo_matrix(
             (binaryData, (binaryRow, binaryCol)), shape=shape)
@@ -1191,28 +1049,12 @@ class Sparse(Base):
 
     def _genericMod_implementation(self, opName, other):
         """
-        Uses np.mod on the nonzero values in the coo matrix.
+        Apply the operation to every element.
 
-        Since 0 % any value is 0, the zero values can be ignored for
-        this operation.
+        Zero values have been disallowed in the right object, so the stored
+        values of the left and right objects are not at the same locations.
         """
-        sortedAxis = self._sorted['axis']
-        sort = sortedAxis if sortedAxis is not None else 'point'
-        self._sortInternal(sort)
-        selfData = self._getSparseData()
-        if not isinstance(other, Sparse):
-            other = other.copy('Sparse')
-        other._sortInternal(sort)
-        otherData = other._getSparseData()
-        if opName == '__rmod__':
-            ret = np.mod(otherData.data, selfData.data)
-        else:
-            ret = np.mod(selfData.data, otherData.data)
-        coo = scipy.sparse.coo_matrix((ret, (selfData.row, selfData.col)),
-                                      shape=self.shape)
-        coo.eliminate_zeros() # remove any zeros introduced into data
-
-        return Sparse(coo)
+        return self._defaultBinaryOperations_implementation(opName, other)
 
     def _scalarZeroPreservingBinary_implementation(self, opName, other):
         """
-- 
2.43.0


From 69e3bf7e8349b91af294c26cc55d3d036def2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 013/178] fix: objects created from tuples of lists do not
 share the lists

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 34b055b..1c8d475 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1539,8 +1539,8 @@ def initDataObject(
     # anything we do not recognize turn into a list, this allows for source to
     # be range, generator, map, iter, etc., and other list-like data structures
     elif not isinstance(rawData, (list, dict)):
+        # only the outer container is new, its elements are not copied
         rawData = list(rawData)
-        copied = True
 
     rawData, highDim, copied = isHighDimensionData(rawData, rowsArePoints,
                                                    skipDataProcessing, copied)
-- 
2.43.0


From f48085884b4698b6cdd7bb43340973d590a06436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 014/178] fix: numeric checks on List views, structural copies
 of bool Sparse views

---
 nimble/core/data/base.py       | 3 +++
 nimble/core/data/sparseAxis.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 8ca5b9f..8f784b2 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -122,6 +122,9 @@ def isNumeric(base):
         return base._data.dtype.kind in 'ifc'
     elif isinstance(base._data, list):
         return checkNumericListType(base._data)
+    elif isinstance(base, nimble.core.data.BaseView):
+        # the data of a List view is not a list
+        return isNumeric(base.copy())
     else:
         raise ValueError("Unsupported data type")
 
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index e42b193..4bb9c91 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -300,7 +300,8 @@ class SparseAxis(Axis, metaclass=ABCMeta):
 
         # need to manually set dtype or coo_matrix will force to simplest dtype
         targetArr = np.array(targetData)
-        if not np.issubdtype(targetArr.dtype, np.number):
+        if not (np.issubdtype(targetArr.dtype, np.number)
+                or targetArr.dtype == np.bool_):
             targetArr = np.array(targetData, dtype=np.object_)
         ret = scipy.sparse.coo_matrix((targetArr, (targetRows, targetCols)),
                                       shape=targetShape)
-- 
2.43.0


From d51d16060c625faeb6b4778c612a69b7577c1e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 015/178] fix: Sparse arithmetic with missing values, assigning
 booleans to boolean Sparse

---
 nimble/core/data/_dataHelpers.py |  4 +++-
 nimble/core/data/sparse.py       | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 622648a..e99b909 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1210,7 +1210,9 @@ def modifyNumpyArrayValue(arr, index, newVal):
     """
     nonNumericNewVal = match.nonNumeric(newVal) and newVal is not None
     floatNewVal = isinstance(newVal, (float, np.floating)) or newVal is None
-    if nonNumericNewVal and arr.dtype != np.object_:
+    if arr.dtype == np.bool_ and isinstance(newVal, (bool, np.bool_)):
+        pass
+    elif nonNumericNewVal and arr.dtype != np.object_:
         arr = arr.astype(np.object_)
     elif floatNewVal and arr.dtype not in (np.floating, np.object_):
         arr = arr.astype(np.float64)
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index c26bd6f..4d2deed 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -899,6 +899,9 @@ class Sparse(Base):
         Directs the operation to the best implementation available,
         preserving the sparse representation whenever possible.
         """
+        if (any(name in opName for name in ('mul', 'div', 'mod'))
+                and self._zerosAffected(other)):
+            return self._defaultBinaryOperations_implementation(opName, other)
         # scipy mul and pow operators are not elementwise
         if 'mul' in opName:
             return self._genericMul_implementation(opName, other)
@@ -938,6 +941,24 @@ class Sparse(Base):
             return self._defaultBinaryOperations_implementation(opName, other)
 
 
+    def _zerosAffected(self, other):
+        """
+        Multiplying or dividing zeros by missing or infinite values does not
+        give zeros, so working on the stored values alone is not possible.
+        """
+        def nonFinite(data):
+            data = np.asarray(data)
+            return (data.dtype.kind == 'f'
+                    and not np.isfinite(data).all())
+
+        if not isinstance(other, Base):
+            return nonFinite(other)
+        if isinstance(other, Sparse):
+            otherData = other._getSparseData().data
+        else:
+            otherData = other.copy('numpyarray')
+        return nonFinite(self._getSparseData().data) or nonFinite(otherData)
+
     def _scalarBinary_implementation(self, opName, other):
         oneSafe = ['mul', '__truediv__', '__itruediv__', '__pow__', '__ipow__']
         if any(name in opName for name in oneSafe) and other == 1:
-- 
2.43.0


From 895bb75d000af609e40d6b5bea320e24367b1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 016/178] fix: operands of refused or converting operators stay
 unchanged, stretch names and types, Sparse linear algebra

---
 nimble/calculate/linalg.py  |  5 ++++-
 nimble/core/data/base.py    | 32 +++++++++++++++++++-------------
 nimble/core/data/sparse.py  |  8 +++++++-
 nimble/core/data/stretch.py | 22 ++++++++++++++++++++--
 4 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index 8d1bb0c..5e360ab 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -109,6 +109,9 @@ def inverse(aObj):
         try:
             invObj = aObj.copy(to='scipy csc')
             invData = scipy.sparse.linalg.inv(invObj)
+            # scipy returns an array for a single value, nan when it is zero
+            if isinstance(invData, np.ndarray) and np.isnan(invData).any():
+                raise RuntimeError('Factor is exactly singular')
         except RuntimeError as exception:
             _handleSingularCase(exception)
         except TypeError as exception:
@@ -326,7 +329,7 @@ def _backendSolvers(aObj, bObj, solverFunction):
     elif aObj.getTypeString() == 'Sparse':
         aCopy = aObj.copy()
         aData = dtypeConvert(aCopy._data)
-        bData = dtypeConvert(np.asarray(bObj._data))
+        bData = dtypeConvert(np.asarray(bObj._data)).ravel()
         if solverFunction.__name__ == 'solve':
             solution = scipy.sparse.linalg.spsolve(aData, bData)
         else:
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 8f784b2..5f5d2e2 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4927,21 +4927,23 @@ class Base(ABC):
             msg += "empty"
             raise ImproperObjectAction(msg)
 
+        # the conversion to numeric types must not change the operands
+        left, right = self.copy(), other.copy()
         try:
-            self._convertToNumericTypes()
+            left._convertToNumericTypes(allowBool=False)
         except ImproperObjectAction:
-            self._numericValidation()
+            left._numericValidation()
         try:
-            other._convertToNumericTypes()
+            right._convertToNumericTypes(allowBool=False)
         except ImproperObjectAction:
-            other._numericValidation(right=True)
+            right._numericValidation(right=True)
 
         if opName.startswith('__r'):
-            caller = other
-            callee = self
+            caller = right
+            callee = left
         else:
-            caller = self
-            callee = other
+            caller = left
+            callee = right
 
         if len(caller.features) != len(callee.points):
             msg = "The number of features in the left hand object must "
@@ -5414,10 +5416,10 @@ class Base(ABC):
             conversionKwargs['allowInt'] = False
             conversionKwargs['allowBool'] = False
 
-        if opName.startswith('__i'):
-            obj = self
-        else:
-            obj = self.copy()
+        # also for inplace operations, which must not modify the data when the
+        # operation is refused
+        obj = self.copy()
+        obj._name = self._name
 
         try:
             obj._convertToNumericTypes(**conversionKwargs)
@@ -5502,7 +5504,11 @@ class Base(ABC):
 
     def _genericLogicalBinary(self, opName, other):
         if isinstance(other, Stretch):
-            return getattr(other, opName)(self)
+            ret = getattr(other, opName)(self)
+            # the type is that of the left-hand object
+            if ret.getTypeString() != self.getTypeString():
+                ret = ret.copy(self.getTypeString())
+            return ret
         if not isinstance(other, Base):
             msg = 'other must be an instance of a nimble Base object'
             raise InvalidArgumentType(msg)
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 4d2deed..f4adf61 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -371,7 +371,13 @@ class Sparse(Base):
         if to in nimble.core.data.available:
             ptNames = self.points._getNamesNoGeneration()
             ftNames = self.features._getNamesNoGeneration()
-            if to == 'Sparse':
+            if to == 'Sparse' and self._data.dtype == np.object_:
+                # scipy does not copy matrices of objects
+                data = scipy.sparse.coo_matrix(self._data.shape)
+                data.data = self._data.data.copy()
+                data.row = self._data.row.copy()
+                data.col = self._data.col.copy()
+            elif to == 'Sparse':
                 data = self._data.copy()
             else:
                 data = sparseMatrixToArray(self._data)
diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index 4436d40..621295f 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -119,6 +119,8 @@ class Stretch(object):
             oDefault = oAxis._allDefaultNames()
             if sNames == oNames: # includes both names are None
                 return sNames
+            if sDefault and oDefault:
+                return None
             if sDefault and oStretch and oNum != setNum and oNames:
                 oName = oNames[0]
                 return [oName + '_' + str(i + 1) for i in range(setNum)]
@@ -184,6 +186,15 @@ class Stretch(object):
                 self._source._validateDivMod(opName, other)
 
     def _stretchArithmetic(self, opName, other):
+        # the conversion to numeric types must not change the operands
+        stretched = type(self)(self._source.copy())
+        if isinstance(other, Stretch):
+            other = type(other)(other._source.copy())
+        elif isinstance(other, nimble.core.data.Base):
+            other = other.copy()
+        return stretched._stretchArithmetic_copies(opName, other)
+
+    def _stretchArithmetic_copies(self, opName, other):
         conversionKwargs = {}
         if 'pow' in opName:
             conversionKwargs['allowInt'] = False
@@ -244,8 +255,15 @@ class Stretch(object):
         lhsBool = self._source._logicalValidationAndConversion()
         rhsBool = oBase._logicalValidationAndConversion()
 
-        return lhsBool.stretch._stretchArithmetic_implementation(opName,
-                                                                 rhsBool)
+        if isinstance(other, Stretch):
+            rhsBool = rhsBool.stretch
+        ret = lhsBool.stretch._stretchArithmetic_implementation(opName,
+                                                                rhsBool)
+        setPts, setFts = self._getOutputNames(other)
+        ret.points.setNames(setPts, useLog=False)
+        ret.features.setNames(setFts, useLog=False)
+
+        return ret
 
 class StretchSparse(Stretch):
     """
-- 
2.43.0


From fb29408cfcc701ab3e41c6d8ab96f59b234d338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 017/178] fix: merge fills missing values, keeps zeros,
 features without names and refused objects

---
 nimble/core/data/axis.py   |   2 +-
 nimble/core/data/base.py   |  26 +++---
 nimble/core/data/list.py   |   9 +-
 nimble/core/data/matrix.py |  15 ++--
 nimble/core/data/sparse.py | 178 +++----------------------------------
 5 files changed, 40 insertions(+), 190 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 67f9b76..ef8dfe3 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1538,7 +1538,7 @@ class Axis(ABC):
         allNames = self._getNames() + otherAxis.getNames()
         if len(set(allNames)) != len(allNames):
             for name in self.names:
-                if name in otherAxis.names:
+                if name is not None and name in otherAxis.names:
                     matches.append(name)
         return matches
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5f5d2e2..a62755a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4591,17 +4591,22 @@ class Base(ABC):
             msg += "'intersection'"
             raise InvalidArgumentValue(msg)
 
+        # merge into a copy, this object is not modified if the merge fails
+        merged = self.copy()
         if point == 'strict' or feature == 'strict':
-            self._genericStrictMerge_implementation(other, point, feature,
-                                                    onFeature, force)
+            merged._genericStrictMerge_implementation(other, point, feature,
+                                                      onFeature, force)
         else:
-            self._genericMergeFrontend(other, point, feature, onFeature)
-        
-        if point == 'union':
-            if onFeature:
-                self.points.sort(by=onFeature, useLog=False)
-        
-            
+            merged._genericMergeFrontend(other, point, feature, onFeature)
+
+        if point == 'union' and onFeature is not None:
+            if not isinstance(onFeature, str):
+                # its index can be different in the merged object
+                onFeature = self.features.getName(onFeature)
+            merged.points.sort(by=onFeature, useLog=False)
+
+        self._referenceFrom(merged, paths=(self._absPath, self._relPath))
+
     def _genericStrictMerge_implementation(self, other, point, feature,
                                            onFeature, force):
         """
@@ -4667,11 +4672,12 @@ class Base(ABC):
                 lAxis.setNames(rNames, useLog=False)
                 endNames = rNames
             elif force: # default names present
-                endNames = mergeNames(lAxis.getNames(), rAxis.getNames())
                 # need to alter default names so that _genericMergeFrontend
                 # treats them as non-default and equal. After the data is
                 # merged, the names are reset to their default state.
                 try:
+                    self._validateEqualNames(axis, axis, 'merge', tmpOther)
+                    endNames = mergeNames(lAxis.getNames(), rAxis.getNames())
                     strictNames = ['_STRICT' + str(i) if n is None else n
                                    for i, n in enumerate(endNames)]
                     lAxis.setNames(strictNames, useLog=False)
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 96fde34..5bd43f9 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -378,7 +378,7 @@ class List(Base):
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                onIdxL = onFeatureIdx if feature == "left" else onIdxLoc
                 onIdxR = onIdxLoc
                 right = [[row[i] for i in matchingFtIdx[1]]
                          for row in other._data]
@@ -471,11 +471,12 @@ class List(Base):
             if len(match) > 0:
                 matchMapper[pt[onIdxL]] = match
 
-        for ptL in left:
-            target = ptL[onIdxL]
+        for leftPt in left:
+            target = leftPt[onIdxL]
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
+                    ptL = list(leftPt)
                     # check for conflicts between matching features
                     matches = [ptL[i] == ptR[j] for i, j
                                in zip(matchingFtIdx[0], matchingFtIdx[1])]
@@ -502,7 +503,7 @@ class List(Base):
                 matched.append(target)
             elif point in ['union', 'left']:
                 ptR = [np.nan] * (len(right[0]) - len(matchingFtIdx[1]))
-                pt = ptL + ptR
+                pt = leftPt + ptR
                 merged.append(pt)
 
         if point == 'union':
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index b6b7cec..86d2693 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -257,7 +257,7 @@ class Matrix(Base):
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                onIdxL = onFeatureIdx if feature == "left" else onIdxLoc
                 onIdxR = onIdxLoc
                 right = otherArr[:, matchingFtIdx[1]]
                 # matching indices in right were sorted when slicing above
@@ -336,11 +336,13 @@ class Matrix(Base):
             matches = right[right[:, onIdxR] == pt[onIdxL]]
             if len(matches) > 0:
                 matchMapper[pt[onIdxL]] = matches
-        for ptL in left:
-            target = ptL[onIdxL]
+        for leftPt in left:
+            ptL = leftPt
+            target = leftPt[onIdxL]
             if target in matchMapper:
                 matchesR = matchMapper[target]
                 for ptR in matchesR:
+                    ptL = leftPt.copy()
                     # check for conflicts between matching features
                     matches = ptL[matchingFtIdx[0]] == ptR[matchingFtIdx[1]]
                     nansL = np.array([x != x for x
@@ -355,10 +357,9 @@ class Matrix(Base):
                     if nansL.any():
                         # fill any nan values in left with the corresponding
                         # right value
-                        for i, value in enumerate(ptL[matchingFtIdx[0]]):
-                            if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                        for i, j in zip(*matchingFtIdx):
+                            if ptL[i] != ptL[i]:
+                                ptL[i] = ptR[j]
                     ptR = np.delete(ptR, matchingFtIdx[1])
                     pt = np.concatenate((ptL, ptR)).flatten()
                     merged.append(pt)
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index f4adf61..cd36868 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -477,174 +477,16 @@ class Sparse(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-        self._sortInternal('feature')
-        other._sortInternal('feature')
-        tempFtsL = len(self.features)
-        leftFtCount = tempFtsL
-        tempFtsR = len(other.features)
-        rightFtCount = tempFtsR - len(matchingFtIdx[0])
-        if onFeature is not None:
-            onIdxL = self.features.getIndex(onFeature)
-            onIdxR = other.features.getIndex(onFeature)
-            leftData = self._data.data
-            leftRow = self._data.row
-            leftCol = self._data.col
-            rightData = other._data.data.copy()
-            rightRow = other._data.row.copy()
-            rightCol = other._data.col.copy()
-        else:
-            onIdxL = 0
-            onIdxR = 0
-            tempFtsL += 1
-            tempFtsR += 1
-            leftData = self._data.data.astype(np.object_)
-            if not self.points._anyDefaultNames():
-                leftData = np.append([self.points.getNames()], leftData)
-            elif self.points._namesCreated():
-                # differentiate default names between objects
-                leftNames = [i if n is None else n for i, n
-                             in enumerate(self.points.getNames())]
-                leftData = np.append([leftNames], leftData)
-            else:
-                leftNames = list(range(len(self.points)))
-                leftData = np.append(leftNames, leftData)
-            leftRow = np.append(list(range(len(self.points))), self._data.row)
-            leftCol = np.append([0 for _ in range(len(self.points))],
-                                self._data.col + 1)
-            rightData = other._data.data.copy().astype(np.object_)
-            if not other.points._anyDefaultNames():
-                rightData = np.append([other.points.getNames()], rightData)
-            elif other.points._namesCreated():
-                maxL = len(self.points)
-                # differentiate default names between objects
-                rightNames = [i + maxL if n is None else n for i, n in
-                              enumerate(other.points.getNames())]
-                rightData = np.append([rightNames], rightData)
-            else:
-                rtRange = range(self.shape[0], self.shape[0] + other.shape[0])
-                rightNames = list(rtRange)
-                rightData = np.append(rightNames, rightData)
-            rightRow = np.append(list(range(len(other.points))),
-                                 other._data.row.copy())
-            rightCol = np.append([0 for i in range(len(other.points))],
-                                 other._data.col.copy() + 1)
-            matchingFtIdx[0] = list(map(lambda x: x + 1, matchingFtIdx[0]))
-            matchingFtIdx[0].insert(0, 0)
-            matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
-            matchingFtIdx[1].insert(0, 0)
-
-        mergedData = np.empty((0, 0))
-        mergedRow = []
-        mergedCol = []
-        matched = []
-        nextPt = 0
-        numPts = 0
-
-        for ptIdxL, target in enumerate(leftData[leftCol == onIdxL]):
-            rowIdxR = np.where(rightData[rightCol == onIdxR] == target)[0]
-            if len(rowIdxR) > 0:
-                for ptIdxR in rowIdxR:
-                    ptL = np.zeros((tempFtsL,), dtype=np.object_)
-                    inRowL = leftRow == ptIdxL
-                    ptL[leftCol[inRowL]] = leftData[inRowL]
-                    ptR = np.zeros((tempFtsR,), dtype=np.object_)
-                    inRowR = rightRow == ptIdxR
-                    ptR[rightCol[inRowR]] = rightData[inRowR]
-                    matches = ptL[matchingFtIdx[0]] == ptR[matchingFtIdx[1]]
-                    nansL = ptL[matchingFtIdx[0]] != ptL[matchingFtIdx[0]]
-                    nansR = ptR[matchingFtIdx[1]] != ptR[matchingFtIdx[1]]
-                    acceptableValues = matches + nansL + nansR
-                    if not all(acceptableValues):
-                        msg = "The objects contain different values for the "
-                        msg += "same feature"
-                        raise InvalidArgumentValue(msg)
-                    if len(nansL) > 0:
-                        # fill any nan values in left with the corresponding
-                        # right value
-                        for i, value in enumerate(ptL[matchingFtIdx[0]]):
-                            if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
-                    ptR = ptR[[i for i in range(len(ptR))
-                               if i not in matchingFtIdx[1]]]
-                    pt = np.append(ptL, ptR)
-                    if feature == "intersection":
-                        pt = pt[matchingFtIdx[0]]
-                        leftFtCount = len(matchingFtIdx[0])
-                    elif onFeature is not None and feature == "left":
-                        pt = pt[:len(self.features)]
-                    elif feature == "left":
-                        pt = pt[:len(self.features) + 1]
-                    if onFeature is None:
-                        pt = pt[1:]
-                    matched.append(target)
-                    mergedData = np.append(mergedData, pt)
-                    mergedRow.extend([nextPt] * len(pt))
-                    mergedCol.extend(list(range(len(pt))))
-                    nextPt += 1
-                    numPts += 1
-            elif point in ["union", "left"]:
-                ptL = np.zeros((tempFtsL,), dtype=np.object_)
-                inRowL = leftRow == ptIdxL
-                ptL[leftCol[inRowL]] = leftData[inRowL]
-                ptR = [np.nan] * (tempFtsR - len(matchingFtIdx[1]))
-                pt = np.append(ptL, ptR)
-                if feature == "intersection":
-                    pt = pt[matchingFtIdx[0]]
-                elif feature == "left":
-                    pt = pt[:tempFtsL]
-                if onFeature is None:
-                    pt = pt[1:]
-                mergedData = np.append(mergedData, pt)
-                mergedRow.extend([nextPt] * len(pt))
-                mergedCol.extend(list(range(len(pt))))
-                nextPt += 1
-                numPts += 1
-
-        if point == 'union':
-            for ptIdxR, target in enumerate(rightData[rightCol == onIdxR]):
-                if target not in matched:
-                    nanList = [np.nan] * tempFtsL
-                    ptL = np.array(nanList, dtype=np.object_)
-                    ptR = np.zeros((tempFtsR,), dtype=np.object_)
-                    inRowR = rightRow == ptIdxR
-                    ptR[rightCol[inRowR]] = rightData[inRowR]
-                    fill = ptR[matchingFtIdx[1]]
-                    ptL[matchingFtIdx[0]] = fill
-                    # only unmatched points from right
-                    notMatchedR = np.in1d(rightCol, matchingFtIdx[1],
-                                          invert=True)
-                    ptR = rightData[(rightRow == ptIdxR) & (notMatchedR)]
-                    pt = np.append(ptL, ptR)
-                    if feature == "intersection":
-                        pt = pt[matchingFtIdx[0]]
-                    elif feature == "left":
-                        pt = pt[:tempFtsL]
-                    if onFeature is None:
-                        # remove pointNames column added
-                        pt = pt[1:]
-                    mergedData = np.append(mergedData, pt)
-                    mergedRow.extend([nextPt] * len(pt))
-                    mergedCol.extend(list(range(len(pt))))
-                    nextPt += 1
-                    numPts += 1
-
-        numFts = leftFtCount + rightFtCount
-        if onFeature is not None and feature == "intersection":
-            numFts = len(matchingFtIdx[0])
-        elif feature == "intersection":
-            numFts = len(matchingFtIdx[0]) - 1
-        elif feature == "left":
-            numFts = len(self.features)
-        if len(mergedData) == 0:
-            mergedData = []
-
-        mergedData = mergedData.astype(np.float64)
-        self._dims = [numPts, numFts]
-        self._data = scipy.sparse.coo_matrix(
-            (mergedData, (mergedRow, mergedCol)), shape=(numPts, numFts))
-
-        self._data.eliminate_zeros()
+        # zeros take part in a merge as any other value
+        left = self.copy('Matrix')
+        left._merge_implementation(other.copy('Matrix'), point, feature,
+                                   onFeature, matchingFtIdx)
+        data = left._data
+        if data.size == 0 or all(isinstance(v, (int, float, np.number))
+                                 for v in data.flat):
+            data = data.astype(np.float64)
+        self._dims = left._dims
+        self._data = scipy.sparse.coo_matrix(data)
         self._resetSorted()
 
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
-- 
2.43.0


From 1f8b2f0f6fcb79bc9bf2f298822f95409a036af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 018/178] fix: grouping by missing, infinite or listed keys,
 counting groups

---
 nimble/_utility.py       |  2 ++
 nimble/core/data/base.py | 19 ++++++++++---------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/nimble/_utility.py b/nimble/_utility.py
index 4fdce96..6b49e94 100644
--- a/nimble/_utility.py
+++ b/nimble/_utility.py
@@ -608,6 +608,8 @@ def _getStatsFunction(statsFuncName):
         toCall = nimble.calculate.sum
     elif statsFuncName == 'variance':
         toCall = nimble.calculate.variance
+    elif statsFuncName == 'count':
+        toCall = nimble.calculate.count
     elif statsFuncName == 'uniquecount':
         toCall = nimble.calculate.uniqueCount
     elif statsFuncName == 'proportionmissing':
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index a62755a..82db2d2 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1380,25 +1380,26 @@ class Base(ABC):
         """
         # Numbers coming from a float dtyped object that are equivalent to
         # ints are assumed to be int valued labels, and formatted as such.
-        def prettyKey(val):
-            undefined = ['', np.NaN, None, np.nan, np.NAN]
+        def prettyKey(val, ft):
             if isinstance(val, str):
                 return val
+            if val is None or val != val:
+                # check that the feature doesn't have that string.
+                if "NaN" not in list(self.features.copy(ft)):
+                    return "NaN"
+                return 'numpy.nan'
             if isinstance(val, numbers.Number):
-                if val in undefined:
-                    # check that the feature axis doesn't have that string.
-                    if "NaN" not in list(self.features.copy(by)):
-                        return "NaN"
-                    return 'numpy.nan'
+                if np.isinf(val):
+                    return val
                 iVal = int(val)
                 return iVal if iVal == val else val
             return val
 
         def findKey1(point, by):#if by is a string or int
-            return prettyKey(point[by])
+            return prettyKey(point[by], by)
 
         def findKey2(point, by):#if by is a list of string or a list of int
-            return tuple(prettyKey(point[i]) for i in by)
+            return tuple(prettyKey(point[i], i) for i in by)
 
         #if by is a list, then use findKey2; o.w. use findKey1
         if isinstance(by, (str, numbers.Number)):
-- 
2.43.0


From 0dc517a9aa38372cca2daf5343a95e25bb907a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 019/178] fix: countUniqueElements of a single element

---
 nimble/core/data/_dataHelpers.py | 20 +++++++++++++++++---
 nimble/core/data/sparse.py       |  6 ++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index e99b909..549312c 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -456,12 +456,26 @@ def createDataNoValidation(returnType, data, pointNames=None,
                       reuseData=reuseData)
 
 
+def limitToPointsAndFeatures(obj, points, features):
+    """
+    The object limited to the points and features, each of which may be
+    None, a single identifier or an iterable of identifiers.
+    """
+    wanted = []
+    for identifiers in (points, features):
+        if identifiers is None:
+            identifiers = slice(None)
+        elif isinstance(identifiers, (str, numbers.Number)):
+            # two single identifiers would provide a value, not an object
+            identifiers = [identifiers]
+        wanted.append(identifiers)
+    return obj[wanted[0], wanted[1]]
+
+
 def _limitAndConvertToArray(obj, points, features):
     if points is None and features is None:
         return obj.copy(to='numpyarray')
-    pWanted = points if points is not None else slice(None)
-    fWanted = features if features is not None else slice(None)
-    limited = obj[pWanted, fWanted]
+    limited = limitToPointsAndFeatures(obj, points, features)
     return limited.copy(to='numpyarray')
 
 
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index cd36868..758839e 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -42,7 +42,7 @@ from ._dataHelpers import sparseDataArray, narrowObjectArray
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
-from ._dataHelpers import denseCountUnique
+from ._dataHelpers import denseCountUnique, limitToPointsAndFeatures
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
 from ._dataHelpers import isValid2DObject
@@ -257,9 +257,7 @@ class Sparse(Base):
         if points is None and features is None and not isView:
             source = self
         else:
-            pWanted = points if points is not None else slice(None)
-            fWanted = features if features is not None else slice(None)
-            source = self[pWanted, fWanted]
+            source = limitToPointsAndFeatures(self, points, features)
         uniqueCount = denseCountUnique(source._data.data)
         totalValues = (len(source.points) * len(source.features))
         numZeros = totalValues - len(source._data.data)
-- 
2.43.0


From 475f8c983234152ec2334be95606a3490fd08755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 020/178] fix: hash codes of text, missing and infinite values

---
 nimble/core/data/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 82db2d2..5c61f8c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -25,6 +25,7 @@ common functions.
 
 import sys
 import math
+import zlib
 import numbers
 import itertools
 import os.path
@@ -88,6 +89,12 @@ def hashCodeFunc(elementValue, pointNum, featureNum):
     """
     Generate hash code.
     """
+    if (not isinstance(elementValue, (numbers.Number, np.bool_))
+            or not np.isfinite(elementValue)):
+        # use a number representing the non-numeric, missing, infinite value
+        if elementValue is None or elementValue != elementValue:
+            elementValue = np.nan
+        elementValue = zlib.crc32(str(elementValue).encode('utf-8'))
     return ((math.sin(pointNum) + math.cos(featureNum)) / 2.0) * elementValue
 
 def checkNumericListType(listData):
-- 
2.43.0


From 19a860e9e10c281640215e221a53d0683698e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 021/178] fix: transforming functions that fail leave the
 object unchanged

---
 nimble/core/data/axis.py      | 19 +++++++++++++++++--
 nimble/core/data/dataframe.py |  5 +++++
 nimble/core/data/features.py  | 20 +++++++++++++++-----
 nimble/core/data/list.py      |  4 ++++
 nimble/core/data/matrix.py    |  4 ++++
 nimble/core/data/sparse.py    |  4 ++++
 6 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index ef8dfe3..f2d4438 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -498,7 +498,7 @@ class Axis(ABC):
             self._setNames(reorderedNames)
 
 
-    def _transform(self, function, limitTo):
+    def _validateTransformable(self):
         if self._base._dims[0] == 0:
             msg = "We disallow this function when there are 0 points"
             raise ImproperObjectAction(msg)
@@ -506,6 +506,8 @@ class Axis(ABC):
             msg = "We disallow this function when there are 0 features"
             raise ImproperObjectAction(msg)
 
+    def _transform(self, function, limitTo):
+        self._validateTransformable()
         if self._axis == 'point':
             allowedLength = len(self._base.features)
         else:
@@ -514,7 +516,20 @@ class Axis(ABC):
         if limitTo is not None:
             limitTo = constructIndicesList(self._base, self._axis, limitTo)
 
-        self._transform_implementation(wrappedFunc, limitTo)
+        # every result is calculated before the data is modified, so that the
+        # data does not change when the function fails for a point or feature
+        results = []
+        for i, view in enumerate(self):
+            if limitTo is None or i in limitTo:
+                ret = wrappedFunc(view)
+                results.append(ret.copy() if hasattr(ret, 'copy') else ret)
+        resultsIter = iter(results)
+
+        @functools.wraps(wrappedFunc)
+        def calculated(_):
+            return next(resultsIter)
+
+        self._transform_implementation(calculated, limitTo)
 
     ###########################
     # Higher Order Operations #
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 707d802..c707857 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -92,6 +92,8 @@ class DataFrame(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # modify after all calculations so a failure leaves data unchanged
+        results = []
         for i, j in ids:
             currVal = self._data.iat[i, j]
 
@@ -104,6 +106,9 @@ class DataFrame(Base):
                 currRet = toTransform(currVal)
             else:
                 currRet = toTransform(currVal, i, j)
+            results.append((i, j, currRet))
+
+        for i, j, currRet in results:
             # convert datetime columns so pandas can't convert to datetimes
             if (self._data.dtypes.iloc[j].type == np.datetime64
                     and isinstance(currRet, (numbers.Number, str))):
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 0fbe027..3ff2875 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -37,7 +37,7 @@ from nimble.core.logger import handleLogging
 from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
-from ._dataHelpers import limitedTo2D, prepLog
+from ._dataHelpers import limitedTo2D, prepLog, validateAxisFunction
 
 class Features(ABC):
     """
@@ -2004,14 +2004,24 @@ class Features(ABC):
                 raise InvalidArgumentValue(msg)
             if features is not None:
                 features = list(map(self._getIndex, features))
+            self._validateTransformable()
+            applyResultTo.features._validateTransformable()
+            # all results are validated before either object is modified
+            results = []
             zipFeatures = zip(self, applyResultTo.features)
             for i, (ft1, ft2) in enumerate(zipFeatures):
                 if features is None or i in features:
-                    # pylint: disable=cell-var-from-loop
                     norm1, norm2 = function(ft1, ft2)
-                    self.transform(lambda _: norm1, features=i, useLog=False)
-                    applyResultTo.features.transform(
-                        lambda _: norm2, features=i, useLog=False)
+                    for norm, ft in ((norm1, ft1), (norm2, ft2)):
+                        # pylint: disable=cell-var-from-loop
+                        validateAxisFunction(lambda _: norm, 'feature',
+                                             len(ft))(ft)
+                    results.append((i, norm1, norm2))
+            for i, norm1, norm2 in results:
+                # pylint: disable=cell-var-from-loop
+                applyResultTo.features.transform(
+                    lambda _: norm2, features=i, useLog=False)
+                self.transform(lambda _: norm1, features=i, useLog=False)
         else:
             msg = 'applyResultTo must be None or an instance of Base'
             raise InvalidArgumentType(msg)
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 5bd43f9..6ba434d 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -139,6 +139,8 @@ class List(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # modify after all calculations so a failure leaves data unchanged
+        results = []
         for i, j in ids:
             currVal = self._data[i][j]
 
@@ -151,7 +153,9 @@ class List(Base):
                 currRet = toTransform(currVal)
             else:
                 currRet = toTransform(currVal, i, j)
+            results.append((i, j, currRet))
 
+        for i, j, currRet in results:
             self._data[i][j] = currRet
 
     # pylint: disable=unused-argument
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 86d2693..ac21850 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -87,6 +87,8 @@ class Matrix(Base):
     def _transform_implementation(self, toTransform, points, features):
         ids = itertools.product(range(len(self.points)),
                                 range(len(self.features)))
+        # modify after all calculations so a failure leaves data unchanged
+        results = []
         for i, j in ids:
             currVal = self._data[i, j]
 
@@ -99,7 +101,9 @@ class Matrix(Base):
                 currRet = toTransform(currVal)
             else:
                 currRet = toTransform(currVal, i, j)
+            results.append((i, j, currRet))
 
+        for i, j, currRet in results:
             self._data = modifyNumpyArrayValue(self._data, (i, j), currRet)
 
     # pylint: disable=unused-argument
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 758839e..8cc7ab9 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -183,6 +183,8 @@ class Sparse(Base):
 
     def _transformEachElement_zeroPreserve_implementation(
             self, toTransform, points, features):
+        # modify after all calculations so a failure leaves data unchanged
+        results = []
         for index, val in enumerate(self._data.data):
             pID = self._data.row[index]
             fID = self._data.col[index]
@@ -195,7 +197,9 @@ class Sparse(Base):
                 currRet = toTransform(val)
             else:
                 currRet = toTransform(val, pID, fID)
+            results.append((index, currRet))
 
+        for index, currRet in results:
             self._data.data = modifyNumpyArrayValue(self._data.data, index,
                                                     currRet)
 
-- 
2.43.0


From 378f2854ffc3c02096221c16e59f10b005ab506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 022/178] fix: sorting by several identifiers is all or nothing

---
 nimble/core/data/axis.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index f2d4438..e4f8295 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1292,17 +1292,17 @@ class Axis(ABC):
         self._permute(sorted(self._getNames(), reverse=reverse))
 
     def _sortByIdentifier(self, index, reverse):
-        if isinstance(index, list):
-            for idx in index[::-1]:
-                self._sortByIdentifier(idx, reverse)
-        else:
+        if not isinstance(index, list):
+            index = [index]
+        # sort from least to most significant before modifying the order
+        order = list(range(len(self)))
+        for idx in index[::-1]:
             if self._axis == 'point':
-                data = self._base.features[index]
+                data = list(self._base.features[idx])
             else:
-                data = self._base.points[index]
-            sortedIndex = sorted(enumerate(data), key=operator.itemgetter(1),
-                                 reverse=reverse)
-            self._permute((val[0] for val in sortedIndex))
+                data = list(self._base.points[idx])
+            order.sort(key=data.__getitem__, reverse=reverse)
+        self._permute(order)
 
     def _sortByFunction(self, func, reverse):
         sortedData = sorted(enumerate(self), key=lambda x: func(x[1]),
-- 
2.43.0


From 0d45161f883c04ffdb47c5b635f8534356fe0c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:40 +0000
Subject: [PATCH 023/178] fix: new feature names are validated before data is
 changed

---
 nimble/core/data/axis.py     | 15 +++++++++++++
 nimble/core/data/base.py     | 13 ++++++++++--
 nimble/core/data/features.py |  9 +++++---
 nimble/core/data/points.py   | 41 +++++++++++++++++++++++++-----------
 4 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index e4f8295..48c8268 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -195,6 +195,21 @@ class Axis(ABC):
         return copy.copy(self.namesInverse)
    
 
+    def _validateNewNames(self, newNames):
+        """
+        Validate a list of names for this axis before modifying the data.
+        """
+        used = set()
+        for name in newNames:
+            if name is None:
+                continue
+            if not isinstance(name, str):
+                raise InvalidArgumentValue("Names must be strings")
+            if name in used:
+                msg = "Cannot input duplicate names: " + str(name)
+                raise InvalidArgumentValue(msg)
+            used.add(name)
+
     def _setNames(self, assignments, oldIdentifiers=None):
        # Special case where we remove the entirety of the names, but only if there aren't
         # any specified oldIdentifiers
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5c61f8c..b92b4a4 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -582,10 +582,10 @@ class Base(ABC):
 
         index = self.features.getIndex(featureToReplace)
 
-        replace = self.features.extract([index], useLog=False)
+        replace = self.features.copy([index], useLog=False)
 
         uniqueVals = replace.countUniqueElements().keys()
-        uniqueIdx = {key: i for i, key in enumerate(uniqueVals)}
+        uniqueIdx = UniqueIndex({key: i for i, key in enumerate(uniqueVals)})
 
         binaryObj = replace._replaceFeatureWithBinaryFeatures_implementation(
             uniqueIdx)
@@ -600,6 +600,15 @@ class Base(ABC):
             ftNames.append(prefix + str(val))
         binaryObj.features.setNames(ftNames, useLog=False)
 
+        # validate new feature names before modifying the object
+        currNames = self.features._getNamesNoGeneration()
+        if currNames is None:
+            self.features._validateNewNames(ftNames)
+        else:
+            self.features._validateNewNames(
+                currNames[:index] + ftNames + currNames[index + 1:])
+
+        self.features.delete([index], useLog=False)
         # must use append if the object is now feature empty
         if len(self.features) == 0:
             self.features.append(binaryObj, useLog=False)
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 3ff2875..4e78d21 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2196,12 +2196,15 @@ class Features(ABC):
         featureIndex = self.getIndex(feature)
         numRetFeatures = len(self) - 1 + numResultingFts
 
-        self._splitByParsing_implementation(featureIndex, splitList,
-                                            numRetFeatures, numResultingFts)
-
+        # validate new feature names before modifying the object
         fNames = self.getNames()[:featureIndex]
         fNames.extend(resultingNames)
         fNames.extend(self.getNames()[featureIndex + 1:])
+        self._validateNewNames(fNames)
+
+        self._splitByParsing_implementation(featureIndex, splitList,
+                                            numRetFeatures, numResultingFts)
+
         self._base._dims[1] = numRetFeatures
         self.setNames(fNames, useLog=False)
 
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index e26d9d3..c6d5706 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -31,7 +31,7 @@ from abc import ABC, abstractmethod
 from collections import OrderedDict
 
 import nimble
-from nimble.exceptions import ImproperObjectAction
+from nimble.exceptions import ImproperObjectAction, InvalidArgumentValue
 from ._dataHelpers import limitedTo2D, prepLog
 
 class Points(ABC):
@@ -1976,6 +1976,9 @@ class Points(ABC):
         numCollapsed = len(featuresToCollapse)
         collapseIndices = [self._base.features.getIndex(ft)
                            for ft in featuresToCollapse]
+        if len(set(collapseIndices)) != numCollapsed:
+            msg = "featuresToCollapse cannot contain duplicates"
+            raise InvalidArgumentValue(msg)
         retainIndices = [idx for idx in range(len(features))
                          if idx not in collapseIndices]
         currNumPoints = len(self)
@@ -1989,13 +1992,16 @@ class Points(ABC):
         numRetPoints = len(self) * numCollapsed
         numRetFeatures = len(features) - numCollapsed + 2
 
+        # validate new feature names before modifying the object
+        ftNames = [features.getName(idx) for idx in retainIndices]
+        ftNames.extend([featureForNames, featureForValues])
+        features._validateNewNames(ftNames)
+
         self._splitByCollapsingFeatures_implementation(
             featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._dims = [numRetPoints, numRetFeatures]
-        ftNames = [features.getName(idx) for idx in retainIndices]
-        ftNames.extend([featureForNames, featureForValues])
         features.setNames(ftNames, useLog=False)
         if self._base.points._namesCreated():
             appendedPts = []
@@ -2130,6 +2136,13 @@ class Points(ABC):
         valuesIdx = [self._base.features.getIndex(idx) for idx
                      in featuresWithValues]
         combinedIdx = [namesIdx] + valuesIdx
+        if len(set(combinedIdx)) != len(combinedIdx):
+            msg = "featureWithFeatureNames and featuresWithValues must "
+            msg += "identify different features"
+            raise InvalidArgumentValue(msg)
+        if not valuesIdx:
+            msg = "featuresWithValues must identify at least one feature"
+            raise InvalidArgumentValue(msg)
         uncombinedIdx = [i for i in range(len(self._base.features))
                          if i not in combinedIdx]
 
@@ -2177,15 +2190,6 @@ class Points(ABC):
             for i in adjust:
                 prefixes[i] += '(' + type(uniqueNames[i]).__name__ + ')'
 
-        # the new features replace the feature with the names, its location
-        # changes when other removed features precede it
-        insertIdx = sum(idx < namesIdx for idx in uncombinedIdx)
-        self._combineByExpandingFeatures_implementation(
-            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
-            insertIdx)
-
-        self._base._dims = [len(unique), numRetFeatures]
-
         newFtNames = []
         for prefix in prefixes:
             # if only one feature is expanded we will use the unique values
@@ -2203,10 +2207,23 @@ class Points(ABC):
             else:
                 newFtNames.append(prefix)
 
+        # the new features replace the feature with the names, its location
+        # changes when other removed features precede it
+        insertIdx = sum(idx < namesIdx for idx in uncombinedIdx)
+        fNames = newFtNames
         if self._base.features._namesCreated():
             origFts = self._base.features.getNames()
             keptFts = [origFts[i] for i in uncombinedIdx]
             fNames = keptFts[:insertIdx] + newFtNames + keptFts[insertIdx:]
+        self._base.features._validateNewNames(fNames)
+
+        self._combineByExpandingFeatures_implementation(
+            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures,
+            insertIdx)
+
+        self._base._dims = [len(unique), numRetFeatures]
+
+        if self._base.features._namesCreated():
             self._base.features.setNames(fNames, useLog=False)
         else:
             for i, name in enumerate(newFtNames):
-- 
2.43.0


From fbf86c639dab5f021edac81c5763eaf6593d9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 024/178] fix: missing values are one category in integer and
 binary features

---
 nimble/core/data/_dataHelpers.py | 12 ++++++++++++
 nimble/core/data/base.py         |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 549312c..5b5cea7 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -520,6 +520,18 @@ def vectorizeElementFunction(func):
     return wrapped
 
 
+class UniqueIndex(dict):
+    """
+    A mapping of unique values to indices with a single index for all nans.
+    """
+    def __missing__(self, key):
+        if key != key:
+            for uniqueVal, index in self.items():
+                if uniqueVal != uniqueVal:
+                    return index
+        raise KeyError(key)
+
+
 def denseCountUnique(obj, points=None, features=None):
     """
     Return dictionary of the unique elements and their values for dense
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index b92b4a4..6ba7205 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -58,7 +58,7 @@ from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import validateElementFunction, wrapMatchFunctionFactory
 from ._dataHelpers import ElementIterator1D
-from ._dataHelpers import limitedTo2D
+from ._dataHelpers import limitedTo2D, UniqueIndex
 from ._dataHelpers import arrangeFinalTable
 from ._dataHelpers import inconsistentNames, equalNames
 from ._dataHelpers import validateRangeOrder
@@ -673,6 +673,8 @@ class Base(ABC):
             integerValue = 0
             mapped = []
             for val in ft:
+                if val != val: # all missing values are the same value
+                    val = np.nan
                 if val in mapping:
                     mapped.append(mapping[val])
                 elif val == 0:
-- 
2.43.0


From 78e787147c7e6f2ca501f79ee5fb3992ed971738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 025/178] fix: Sparse assignment of missing values, names of
 copied Sparse views

---
 nimble/core/data/sparse.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 8cc7ab9..7fa9c81 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -544,6 +544,8 @@ class Sparse(Base):
         """ 
         currently, we sort the data first and then do binary search
         """
+        if value is None:
+            value = np.nan
         sortedAxis = self._sorted['axis']
         sort = sortedAxis if sortedAxis is not None else 'point'
         self._sortInternal(sort, setIndices=True)
@@ -578,12 +580,11 @@ class Sparse(Base):
             numPts = len(list(self.points))
             numFts = len(list(self.features))
             # Insert new entry if value is not zero
-            self._data.data = np.append(self._data.data, value)
-            self._data.row = np.append(self._data.row, x)
-            self._data.col = np.append(self._data.col, y)
+            data = np.append(self._data.data, value)
+            row = np.append(self._data.row, x)
+            col = np.append(self._data.col, y)
             self._data = scipy.sparse.coo_matrix(
-                (self._data.data, (self._data.row, self._data.col)),
-                 shape=(numPts,numFts)
+                (data, (row, col)), shape=(numPts,numFts)
             )
             # Re-sort and re-index
             self._sortInternal(self._sorted['axis'], setIndices=True, forceSort=True)
@@ -1099,6 +1100,11 @@ class SparseView(BaseView, Sparse):
         if self._fEnd - self._fStart < len(self._source.features):
             limited = limited.features.copy(start=self._fStart,
                                             end=self._fEnd - 1, useLog=False)
+        # the names of the source may have changed
+        limited.points.setNames(self.points._getNamesNoGeneration(),
+                                useLog=False)
+        limited.features.setNames(self.features._getNamesNoGeneration(),
+                                  useLog=False)
 
         return limited._copy_implementation(to)
 
-- 
2.43.0


From 525a7ddda96db370cf4d0312ed5939dfd076a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 026/178] fix: rows given as features are kept, typed and
 ordered as points and features

---
 nimble/core/_createHelpers.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 1c8d475..0b95af5 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1614,11 +1614,14 @@ def initDataObject(
     initMethod = getattr(nimble.core.data, returnType)
     # if limiting data based on keepPoints or keepFeatures,
     # delay name setting because names may be a subset
-    if keepPoints == 'all':
+    limitRows, limitCols = limitPoints, limitFeatures
+    if not rowsArePoints:
+        limitRows, limitCols = limitCols, limitRows
+    if not limitRows:
         usePNames = pointNames
     else:
         usePNames = True if pointNames is True else None
-    if keepFeatures == 'all':
+    if not limitCols:
         useFNames = featureNames
     else:
         useFNames = True if featureNames is True else None
@@ -1626,6 +1629,11 @@ def initDataObject(
     ret = initMethod(rawData, pointNames=usePNames, featureNames=useFNames,
                      name=name, paths=paths, reuseData=True, **kwargs)
 
+    # the remaining arguments refer to the points and features to be returned
+    if not rowsArePoints:
+        ret.transpose(useLog=False)
+        pointNames, featureNames = featureNames, pointNames
+
     def makeCmp(keepList, outerObj, axis):
         if axis == 'point':
             def indexGetter(x):
@@ -1718,10 +1726,7 @@ def initDataObject(
             convertToType = convertToType[0]
 
     if convertToType is not None:
-        ret._data = elementTypeConvert(ret._data, convertToType)        
-        
-    if not rowsArePoints:
-        ret.transpose(useLog=False)
+        ret._data = elementTypeConvert(ret._data, convertToType)
 
     return ret
 
-- 
2.43.0


From 7751c234b6a38de54785b99fe8fd4e774c509be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 027/178] fix: names inside tuples, replaced values that do not
 fit, conversion by feature

---
 nimble/core/_createHelpers.py | 35 +++++++++++++++++++++++++----------
 nimble/core/data/sparse.py    |  8 ++++++++
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 0b95af5..67d851b 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -248,8 +248,12 @@ def extractNamesFromRawList(rawData, pnamesID, fnamesID, copied):
                                                 secondRow)
 
     if not copied and (pnamesID is True or fnamesID is True):
-        rawData = [lst.copy() for lst in rawData]
+        rawData = [list(lst) for lst in rawData]
         copied = True
+    elif pnamesID is True or fnamesID is True:
+        # rows can be copied but not lists, the names cannot be removed
+        rawData = [lst if isinstance(lst, list) else list(lst)
+                   for lst in rawData]
     retPNames = None
     if pnamesID is True:
         temp = []
@@ -938,16 +942,21 @@ def elementTypeConvert(data, convertToType):
                     feature = _numpyArrayDatetimeParse(feature, convType)
                 data[:, j] = feature.astype(convType)
         elif _isScipySparse(data):
+            # scipy only allows object dtype in the array of values
+            values = data.data.astype(np.object_)
             for col, convType in enumerate(convertToType):
                 if convType is None:
                     continue
-                data = data.astype(np.object_)
                 colMask = data.col == col
+                feature = data.data[colMask]
                 if _parseDatetime(convType):
-                    feature = _numpyArrayDatetimeParse(data.data[colMask],
-                                                       convType)
-                    data.data[colMask] = feature
-                data.data[colMask] = data.data[colMask].astype(convType)
+                    feature = _numpyArrayDatetimeParse(feature, convType)
+                values[colMask] = feature.astype(convType)
+            if all(isinstance(val, (int, float, np.number))
+                   and not isinstance(val, bool) for val in values):
+                values = np.array(values.tolist(),
+                                  dtype=None if len(values) else float)
+            data.data = values
         elif _isPandasDataFrame(data):
             for i, (idx, ft) in enumerate(data.items()):
                 convType = convertToType[i]
@@ -1001,11 +1010,16 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
     def replaceNumpyValues(data, replaceLocs):
         # try to avoid converting dtype if possible for efficiency.
         try:
-            if data.dtype == bool and not isinstance(replaceMissingWith, bool):
-                # numpy will replace with bool(replaceWith) instead
-                raise ValueError('replaceWith is not a bool type')
+            # numpy may cast the value to the dtype instead of failing
+            # pylint: disable=comparison-with-itself
+            stored = np.array([replaceMissingWith]).astype(data.dtype)[0]
+            if (isinstance(stored, (bool, np.bool_))
+                    != isinstance(replaceMissingWith, (bool, np.bool_))
+                    or (stored != replaceMissingWith
+                        and replaceMissingWith == replaceMissingWith)):
+                raise ValueError('replaceWith is not an allowed value')
             data[replaceLocs] = replaceMissingWith
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             dtype = type(replaceMissingWith)
             if not allowedNumpyDType(dtype):
                 dtype = np.object_
@@ -1332,6 +1346,7 @@ def convertToTypeDictToList(convertToType, featuresObj, featureNames):
     the index indicates the type of that feature. None indicates no
     conversion.
     """
+    convertToType = convertToType.copy() # the keys used are removed below
     retFNames = featuresObj._getNamesNoGeneration()
     convertList = [None] * len(featuresObj)
     # if no feature names, we will use the list of None values as the
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 7fa9c81..c161bc5 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -92,6 +92,14 @@ class Sparse(Base):
                 if data.dtype not in [float, np.floating, object]:
                     data = data.astype(float)
                 data[data == None] = np.nan
+            # scipy does not support object dtype but objects may be numbers
+            if data.dtype == object and data.size:
+                bools = [isinstance(val, (bool, np.bool_))
+                         for val in data.flat]
+                if all(bools) or (not any(bools) and all(
+                        isinstance(val, (int, float, np.number))
+                        for val in data.flat)):
+                    data = np.array(data.tolist()).reshape(data.shape)
 
             self._data = scipy.sparse.coo_matrix(data)
 
-- 
2.43.0


From c04629e427346c6f7ec10048a57b119b43da13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 028/178] fix: pandas labels do not stay in DataFrame objects,
 scipy format of transposed copies

---
 nimble/core/_createHelpers.py |  6 ++++--
 nimble/core/data/base.py      |  3 +++
 nimble/core/data/dataframe.py | 10 ++++++++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 67d851b..1c2adc2 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -952,8 +952,10 @@ def elementTypeConvert(data, convertToType):
                 if _parseDatetime(convType):
                     feature = _numpyArrayDatetimeParse(feature, convType)
                 values[colMask] = feature.astype(convType)
-            if all(isinstance(val, (int, float, np.number))
-                   and not isinstance(val, bool) for val in values):
+            bools = [isinstance(val, (bool, np.bool_)) for val in values]
+            if (values.size and all(bools)) or (not any(bools) and all(
+                    isinstance(val, (int, float, np.number))
+                    for val in values)):
                 values = np.array(values.tolist(),
                                   dtype=None if len(values) else float)
             data.data = values
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 6ba7205..499c70c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3868,6 +3868,9 @@ class Base(ABC):
             ret._absPath = self.absolutePath
         elif not rowsArePoints:
             ret = ret.transpose()
+            # transposing scipy csr provides csc and vice versa
+            if to.startswith('scipy'):
+                ret = ret.asformat(to[len('scipy'):])
 
         return ret
 
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index c707857..f81df8c 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -78,6 +78,16 @@ class DataFrame(Base):
         else:
             self._data = pd.DataFrame(data, copy=True)
 
+        # The labels always match the positions, names are stored separately
+        index = pd.RangeIndex(self._data.shape[0])
+        columns = pd.RangeIndex(self._data.shape[1])
+        if not (self._data.index.equals(index)
+                and self._data.columns.equals(columns)):
+            if self._data is data: # do not relabel the original
+                self._data = data.copy(deep=False)
+            self._data.index = index
+            self._data.columns = columns
+
         shape = kwds.get('shape', None)
         if shape is None:
             kwds['shape'] = self._data.shape
-- 
2.43.0


From 41200126f26c947c1879e4058a614e306dad2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 029/178] fix: csv columns whose first value is missing are
 detected as numeric

---
 nimble/core/_createHelpers.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 1c2adc2..032ee6f 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2411,6 +2411,7 @@ def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
     added to nonNumericFeatures.
     """
     delKeys = []
+    delEmpty = []
     if convertCols:
         for idx, currType in convertCols.items():
             colVal = _intFloatBoolOrString(row[idx])
@@ -2427,15 +2428,18 @@ def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
     if allEmptyFeatures:
         for idx in allEmptyFeatures:
             if row[idx] != '':
-                delKeys.append(idx)
-
-    if delKeys:
-        for key in delKeys:
-            if key in convertCols:
-                del convertCols[key]
-                nonNumericFeatures.add(key)
-            else:
-                allEmptyFeatures.remove(key)
+                delEmpty.append(idx)
+
+    for key in delKeys:
+        del convertCols[key]
+        nonNumericFeatures.add(key)
+    for key in delEmpty:
+        allEmptyFeatures.remove(key)
+        # this is the first value so it determines the initial type
+        colType = type(_intFloatBoolOrString(row[key]))
+        if colType is not str:
+            convertCols[key] = colType
+            nonNumericFeatures.remove(key)
 
 def _colTypeConversion(row, convertCols, containsMissing):
     """
-- 
2.43.0


From 724839d2b09b0d8b2feb55e44cdb332eb87faf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 030/178] fix: names given as False are not detected in csv
 files, csv.excel is not modified

---
 nimble/core/_createHelpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 032ee6f..1a37716 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2471,6 +2471,7 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
     # these are saved to use in further autodetection
     rowReader = csv.reader(ioStream, dialect)
     possiblePtNames = False
+    detectPtNames = pointNames == 'automatic'
     try:
         firstRow = next(rowReader)
         while firstRow == []:
@@ -2500,7 +2501,7 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
         pointNames, featureNames, firstDataRow, secondDataRow)
 
     # possible pointNames if first was missing and rest could be featureNames
-    trackPoints = possiblePtNames and featureNames
+    trackPoints = possiblePtNames and detectPtNames and featureNames
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
@@ -2570,8 +2571,9 @@ def _detectDialectFromSeparator(ioStream, inputSeparator):
     if inputSeparator == '\t':
         dialect = csv.excel_tab
     else:
-        dialect = csv.excel
-        dialect.delimiter = inputSeparator
+        # a new class, modifying csv.excel would affect every csv reader
+        class dialect(csv.excel):
+            delimiter = inputSeparator
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
-- 
2.43.0


From fef4c14f25542ffebcbe6563e789421611d65103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 031/178] fix: csv files keep quotes, line ends, comment signs
 and missing names or values

---
 nimble/core/_createHelpers.py    |  7 +++----
 nimble/core/data/_dataHelpers.py | 13 ++++++++-----
 nimble/core/data/dataframe.py    | 20 +++++++++++++++++---
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 1a37716..ea4cb94 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2890,9 +2890,8 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     # how many are skipped
     skippedLines = _advancePastComments(ioStream)
     # remake the file iterator to ignore empty lines
-    filtered = filter(lambda row: row[0] != '\n', ioStream)
-    # send that line iterator to the csv reader
-    lineReader = csv.reader(filtered, dialect)
+    # (a quoted value can contain empty lines so it is up to the csv reader)
+    lineReader = filter(None, csv.reader(ioStream, dialect))
 
     firstRowLength = None
     if featureNames is True:
@@ -3115,7 +3114,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         retData = removeNonNumeric
 
     if pointNames is True:
-        retPNames = extractedPointNames
+        retPNames = [name if name else None for name in extractedPointNames]
     elif pointNames and len(retData) == len(pointNames):
         retPNames = pointNames
     elif pointNames:
diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 5b5cea7..9e3392b 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -842,11 +842,14 @@ class NimbleElementIterator(object):
 
 def csvCommaFormat(name):
     """
-    Prevent the name from being interpreted as two different csv values.
-    """
-    if isinstance(name, str) and ',' in name:
-        if '"' in name:
-            name = re.sub(r'"', '""', name)
+    Prevent the name from being interpreted as anything other than a
+    single csv value with exactly this text.
+    """
+    if name is None:
+        return ''
+    if isinstance(name, str) and (name.startswith('#')
+                                  or re.search(r'[,"\r\n]', name)):
+        name = re.sub(r'"', '""', name)
         name = f'"{name}"'
     return name
 
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index f81df8c..2e18a7a 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -19,6 +19,7 @@
 Class extending Base, using a pandas DataFrame to store data.
 """
 
+import csv
 import itertools
 import numbers
 
@@ -174,15 +175,28 @@ class DataFrame(Base):
         """
         with open(outPath, 'w', encoding='utf-8') as outFile:
             if includeFeatureNames:
-                self._data.columns = self.features.getNames()
+                self._data.columns = [n or '' for n
+                                      in self.features.getNames()]
                 if includePointNames:
                     outFile.write('pointNames')
 
             if includePointNames:
-                self._data.index = self.points.getNames()
+                self._data.index = [n or '' for n in self.points.getNames()]
 
+        # the first line cannot begin like a comment
+        if includeFeatureNames:
+            first = '' if includePointNames else self._data.columns[0]
+        elif includePointNames:
+            first = self._data.index[0]
+        else:
+            first = self._data.iat[0, 0]
+        comment = isinstance(first, str) and first.startswith('#')
+        quoting = csv.QUOTE_NONNUMERIC if comment else csv.QUOTE_MINIMAL
+        # missing values are written as they are for the other types, if empty
+        # a last feature without values would not be recognized when loading
         self._data.to_csv(outPath, mode='a', index=includePointNames,
-                          header=includeFeatureNames)
+                          header=includeFeatureNames, na_rep='nan',
+                          quoting=quoting)
 
         if includePointNames:
             self._data.index = pd.RangeIndex(len(self._data.index))
-- 
2.43.0


From 3bbe9e0e697cbcd32cc3c3ed85b8e7d5fc4371a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 032/178] fix: hdf5 files keep the order, shape and missing
 names of points

---
 nimble/core/_createHelpers.py |  2 +-
 nimble/core/data/base.py      | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index ea4cb94..a1f7a5a 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2787,7 +2787,7 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
                 msg += f"The data in key '{key}' had shape {ptShape} but the "
                 msg += f'first point had shape {expShape}'
                 raise InvalidArgumentValue(msg)
-            pnames.append(key)
+            pnames.append(None if val.attrs.get('unnamed', False) else key)
             data.append(ptData)
 
     # by default 'automatic' will only assign point names if we identify
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 499c70c..482151d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1941,15 +1941,26 @@ class Base(ABC):
             raise PackageException(msg)
         if includePointNames:
             pnames = self.points.getNames()
+            # every point must have a label to be written
+            labels = (f'point {i}' for i in itertools.count())
+            unused = (label for label in labels if label not in pnames)
+            pnames = [(next(unused), False) if name is None else (name, True)
+                      for name in pnames]
             userblockSize = 512
         else:
-            pnames = [str(i) for i in range(len(self.points))]
+            pnames = [(str(i), True) for i in range(len(self.points))]
             userblockSize = 0
-        with h5py.File(outPath, 'w', userblock_size=userblockSize) as hdf:
-            for name, point in zip(pnames, self.points):
+        # otherwise the points are ordered by name when loading
+        with h5py.File(outPath, 'w', userblock_size=userblockSize,
+                       track_order=True) as hdf:
+            for (name, isName), point in zip(pnames, self.points):
+                point = point.copy()
                 point._convertToNumericTypes()
-                asArray = point.copy('numpy array')
-                _ = hdf.create_dataset(name, data=asArray)
+                asArray = point.copy('numpy array',
+                                     outputAs1D=len(self._dims) == 2)
+                dataset = hdf.create_dataset(name, data=asArray)
+                if not isName:
+                    dataset.attrs['unnamed'] = True
                 hdf.flush()
         if includePointNames:
             with open(outPath, 'rb+') as f:
-- 
2.43.0


From e55d9b68558334fe1df3ecf28103b89925467d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 033/178] fix: mtx files of objects with missing names or
 boolean values

---
 nimble/core/_createHelpers.py | 7 ++++---
 nimble/core/data/dataframe.py | 5 +++--
 nimble/core/data/list.py      | 4 ++--
 nimble/core/data/matrix.py    | 2 +-
 nimble/core/data/sparse.py    | 2 +-
 5 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index a1f7a5a..ead218a 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2713,13 +2713,14 @@ def _loadmtxForAuto(ioStream, pointNames, featureNames, encoding):
             scrubbedLine = currLine[2:]
             # strip newline from end of line
             scrubbedLine = scrubbedLine.rstrip()
-            names = list(map(lambda s: s.decode(encoding),
+            # names which are empty belong to unnamed points or features
+            names = list(map(lambda s: s.decode(encoding) or None,
                              scrubbedLine.split(b',')))
             if not seenPNames:
-                retPNames = names if names != [''] else None
+                retPNames = names if any(names) else None
                 seenPNames = True
             else:
-                retFNames = names if names != [''] else None
+                retFNames = names if any(names) else None
 
     ioStream.seek(startPosition)
     data = scipy.io.mmread(ioStream)
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 2e18a7a..7eff1d0 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -215,9 +215,10 @@ class DataFrame(Base):
 
         comment = '#'
         if includePointNames:
-            comment += ','.join(self.points.getNames())
+            comment += ','.join(n or '' for n in self.points.getNames())
         if includeFeatureNames:
-            comment += '\n#' + ','.join(self.features.getNames())
+            comment += '\n#' + ','.join(n or ''
+                                        for n in self.features.getNames())
         scipy.io.mmwrite(outPath, self._data.astype(np.float64),
                          comment=comment)
 
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 6ba434d..91a4c94 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -242,7 +242,7 @@ class List(Base):
                         outFile.write('%#')
                     else:
                         outFile.write(',')
-                    outFile.write(n)
+                    outFile.write(n or '')
                 outFile.write('\n')
 
             if includePointNames:
@@ -259,7 +259,7 @@ class List(Base):
             for j in range(len(self.features)):
                 for i in range(len(self.points)):
                     value = self._data[i][j]
-                    outFile.write(str(value) + '\n')
+                    outFile.write(str(float(value)) + '\n')
 
     def _referenceFrom_implementation(self, other, kwargs):
         kwargs.setdefault('checkAll', False)
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index ac21850..48d751c 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -163,7 +163,7 @@ class Matrix(Base):
         def makeNameString(count, namesGetter):
             nameString = "#"
             for i in range(count):
-                nameString += namesGetter(i)
+                nameString += namesGetter(i) or ''
                 if not i == count - 1:
                     nameString += ','
             return nameString
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index c161bc5..02ddec1 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -351,7 +351,7 @@ class Sparse(Base):
         def makeNameString(count, namesItoN):
             nameString = "#"
             for i in range(count):
-                nameString += namesItoN[i]
+                nameString += namesItoN[i] or ''
                 if not i == count - 1:
                     nameString += ','
             return nameString
-- 
2.43.0


From 8c54c38f1f929f7eef2b8f7f5d861b8502472cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:14 +0000
Subject: [PATCH 034/178] fix: names given as lists are kept for files of one
 line, the last index of keepFeatures is checked

---
 nimble/core/_createHelpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index ead218a..1b98afa 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -175,8 +175,9 @@ def autoDetectNamesFromRaw(pointNames, featureNames, firstValues,
     """
     Determine if first row or column contains names.
     """
-    failPN = isinstance(pointNames, bool) and pointNames
-    failFN = isinstance(featureNames, bool) and featureNames
+    # names provided in an object are not affected by the data
+    failPN = False if pointNames == 'automatic' else pointNames
+    failFN = False if featureNames == 'automatic' else featureNames
     if isEmptyRaw(firstValues):
         return (failPN, failFN)
     if isEmptyRaw(secondValues):
@@ -2972,7 +2973,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         if not keepFeaturesValidated:
             if any(val >= len(row) for val in keepFeatures):
                 for val in keepFeatures:
-                    if val > len(row):
+                    if val >= len(row):
                         msg = "The index " + str(val) + " is outside the "
                         msg += "range of possible indices, 0 to "
                         msg += str(len(row) - 1)
-- 
2.43.0


From 0c716ce6a50b928ea0e122dab0964c70ff188b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:14 +0000
Subject: [PATCH 035/178] fix: the last feature is only dropped when it is
 empty in every row

---
 nimble/core/_createHelpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 1b98afa..5947cff 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2948,8 +2948,10 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     nonNumericFeatures = set()
     allEmptyFeatures = set()
     possiblePtNames = set()
+    allEndEmpty = True # every row, including those not kept, ends with ''
     # lineReader is now at the first line of data
     for i, row in enumerate(lineReader):
+        allEndEmpty = allEndEmpty and row[-1:] == ['']
         if pointNames is True or trackPoints:
             ptName = row[0]
             row = row[1:]
@@ -3061,7 +3063,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
 
     # remove last feature if all values are '' (all rows ended with delimiter),
     # '' is missing value, and no feature name is provided
-    lastFtRemovable = (not limitFeatures and emptyIsMissing
+    lastFtRemovable = (not limitFeatures and emptyIsMissing and allEndEmpty
                        and firstRowLength - 1 in allEmptyFeatures)
     noLastFtName = (not retFNames or len(retFNames) == firstRowLength - 1
                     or (featureNames is True and retFNames[-1] is None))
-- 
2.43.0


From fe92f7e45b4127f73edeb36293ba2e904ec12949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 036/178] fix: element functions are only applied to the
 nonzero values alone if every type of zero is preserved

---
 nimble/core/data/_dataHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 9e3392b..19b3891 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -666,10 +666,11 @@ def validateElementFunction(func, preserveZeros, skipNoneReturnValues,
 
     else:
         oneArg = True
-        # see if we can preserve zeros even if not explicitly set
+        # see if we can preserve zeros even if not explicitly set, the function
+        # could differentiate between the types of values equal to zero
         if not preserveZeros:
             try:
-                if func(0) == 0:
+                if all(func(zero) == 0 for zero in (0, 0.0, False)):
                     preserveZeros = True
             # since it is a user function we cannot predict the exception type
             except Exception: # pylint: disable=broad-except
-- 
2.43.0


From b2d4f7a860bc3bf7a1d9bd128e409830d00c8786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 037/178] fix: a queried name is looked up in the axis it
 belongs to when there is a single point or feature

---
 nimble/core/data/axis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 48c8268..3fc348c 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1170,9 +1170,12 @@ class Axis(ABC):
                 msg += "padded operator."
             raise InvalidArgumentValue(msg) from e
 
-        if not self._base._getAxis(offAxis)._hasName(query.identifier):
+        offAxisObj = self._base._getAxis(offAxis)
+        if not offAxisObj._hasName(query.identifier):
             msg = f"the {offAxis} '{query.identifier}' does not exist"
             raise InvalidArgumentValue(msg)
+        # a name in a view of a single value could refer to either axis
+        query.identifier = offAxisObj._getIndex(query.identifier)
 
         return query
 
-- 
2.43.0


From 2bf54235db8b3e1670c10c37db6fa4a98bd34920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 038/178] fix: flattened names are only joined when a name has
 been assigned

---
 nimble/core/data/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 482151d..64c506b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4172,7 +4172,9 @@ class Base(ABC):
             raise ImproperObjectAction(msg)
 
         fNames = None
-        if self.points._namesCreated() or self.features._namesCreated():
+        # names being created does not imply any has been assigned
+        if any(name is not None for axis in (self.points, self.features)
+               for name in (axis._getNamesNoGeneration() or [])):
             fNames = self._flattenNames(order)
         self._dims = list(self.shape) # make 2D before flattening
         self._flatten_implementation(order)
-- 
2.43.0


From 1f40b49db0e0db22636af57e30aa81dfc200bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 039/178] fix: unflatten counts the placeholder of a default
 name once

---
 nimble/core/data/base.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 64c506b..6a98f66 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4206,29 +4206,14 @@ class Base(ABC):
             else:
                 return (None, None)
 
-        pNames = []
-        fNames = []
-        allPtDefault = True
-        allFtDefault = True
-        for pName, fName in splitNames:
-            if pName not in pNames:
-                if pName.startswith('_PT#'):
-                    pNames.append(None)
-                else:
-                    pNames.append(pName)
-                    if allPtDefault:
-                        allPtDefault = False
-            if fName not in fNames:
-                if fName.startswith('_FT#'):
-                    fNames.append(None)
-                else:
-                    fNames.append(fName)
-                    if allFtDefault:
-                        allFtDefault = False
-
-        if allPtDefault:
+        # each name, including those that are defaults, is only used once
+        pNames = list(dict.fromkeys(p for p, _ in splitNames))
+        fNames = list(dict.fromkeys(f for _, f in splitNames))
+        pNames = [None if p.startswith('_PT#') else p for p in pNames]
+        fNames = [None if f.startswith('_FT#') else f for f in fNames]
+        if all(p is None for p in pNames):
             pNames = None
-        if allFtDefault:
+        if all(f is None for f in fNames):
             fNames = None
 
         return pNames, fNames
-- 
2.43.0


From f35fd55be5d3b4f9a1b35eb001b6160044b5f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 040/178] fix: the result of abs keeps its point names when
 features have none

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 6a98f66..d885bf9 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5250,7 +5250,7 @@ class Base(ABC):
         if self.features._namesCreated():
             ret.features.setNames(self.features.getNames(), useLog=False)
         else:
-            ret.points.setNames(None, useLog=False)
+            ret.features.setNames(None, useLog=False)
 
         ret._name = None
         ret._absPath = self.absolutePath
-- 
2.43.0


From b4617f81f1fa079e335c604c0e9e746e85e86171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 041/178] fix: the result of a binary operation does not share
 its shape with the left object

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index d885bf9..ddfc0e7 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5481,7 +5481,7 @@ class Base(ABC):
             obj._diagnoseFailureAndRaiseException(opName, other, error)
             raise # backup; should be diagnosed and raised above
 
-        ret._dims = self._dims
+        ret._dims = self._dims.copy()
         if opName.startswith('__i'):
             self._referenceFrom(ret, paths=(self._absPath, self._relPath))
             ret = self
-- 
2.43.0


From 97d8eff5d126090e4edd6fdc7428081b18ad3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 042/178] fix: unflatten of a DataFrame object keeps values of
 different types

---
 nimble/core/data/dataframe.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 7eff1d0..b18a5df 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -337,15 +337,20 @@ class DataFrame(Base):
 
     def _unflatten_implementation(self, reshape, order):
         dtypes = tuple(self._data.dtypes)
-        if len(dtypes) == 1 and reshape[1] > 1: # feature shaped
-            dtypes = (dtypes[0],) * reshape[0] * reshape[1]
+        if len(dtypes) == 1: # feature shaped
+            dtypes *= reshape[0] * reshape[1]
+
+        def commonDtype(combined):
+            if all(isinstance(dtype, np.dtype) for dtype in combined):
+                return np.result_type(*combined)
+            return combined[0] if len(set(combined)) == 1 else np.object_
 
         if order == 'point':
-            jumps = range(reshape[1])
-            newDtypes = tuple(max(dtypes[i::reshape[1]]) for i in jumps)
+            newDtypes = tuple(commonDtype(dtypes[i::reshape[1]])
+                              for i in range(reshape[1]))
         else:
-            jumps = range(0, np.prod(reshape), reshape[0])
-            newDtypes = tuple(max(dtypes[i:i+reshape[1]]) for i in jumps)
+            newDtypes = tuple(commonDtype(dtypes[i:i + reshape[0]])
+                              for i in range(0, len(dtypes), reshape[0]))
         order = convertToNumpyOrder(order)
         array = self._asNumpyArray()
         values = array.reshape(reshape, order=order)
-- 
2.43.0


From a24f7db3c05dc4418ba0f9e46559a2689194b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 043/178] fix: splitByParsing with a separator of several
 characters inside of a rule list

---
 nimble/core/data/features.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 4e78d21..db597ca 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2171,11 +2171,9 @@ class Features(ABC):
                     if isinstance(item, str):
                         split.append(value[startIdx:].split(item)[0])
                         # find index of value from startIdx on, o.w. will only
-                        # ever return first instance. Add len of previous
-                        # values to get actual index and add one to bypass this
-                        # item in next iteration
-                        startIdx = (value[startIdx:].index(item) +
-                                    len(value[:startIdx]) + 1)
+                        # ever return first instance. Add len of item to
+                        # bypass this item in next iteration
+                        startIdx = value.index(item, startIdx) + len(item)
                     elif isinstance(item, (int, np.integer)):
                         split.append(value[startIdx:item])
                         startIdx = item
-- 
2.43.0


From 6e28841512ff1040324a940851eebbaf933b1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 044/178] fix: shape of a Sparse point view with a single inner
 feature

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 02ddec1..d0225f9 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -666,6 +666,8 @@ class Sparse(Base):
             else:
                 primary = np.zeros((end - start,), dtype=int)
                 secondary = sortedSecondary[start:end] - secondaryStart
+                if len(self._dims) > 2:
+                    kwds['shape'] = [pshape] + self._dims[1:]
 
             if singlePoint:
                 row = primary
-- 
2.43.0


From 1bf8a1b4fe1468760e23530236bcc3fe92306e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 045/178] fix: match functions and queries recognize numpy
 booleans

---
 nimble/match/match.py | 6 +++---
 nimble/match/query.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/nimble/match/match.py b/nimble/match/match.py
index 3175baf..7fac963 100644
--- a/nimble/match/match.py
+++ b/nimble/match/match.py
@@ -380,7 +380,7 @@ def integer(value):
     >>> integer(True)
     True
     """
-    return isinstance(value, (int, np.integer))
+    return isinstance(value, (int, np.integer, np.bool_))
 
 def floating(value):
     """
@@ -441,7 +441,7 @@ def true(value):
     >>> true('True')
     False
     """
-    return boolean(value) and value is True
+    return boolean(value) and bool(value)
 
 def false(value):
     """
@@ -473,7 +473,7 @@ def false(value):
     >>> false('False')
     False
     """
-    return boolean(value) and value is False
+    return boolean(value) and not value
 
 def anyValues(match):
     """
diff --git a/nimble/match/query.py b/nimble/match/query.py
index 03246ef..de6116e 100644
--- a/nimble/match/query.py
+++ b/nimble/match/query.py
@@ -115,8 +115,8 @@ class QueryString:
     >
     """
     _accepted = {n: getattr(match, n) for n in _setAll(vars(match))}
-    _accepted['True'] = lambda e: e is True
-    _accepted['False'] = lambda e: e is False
+    _accepted['True'] = match.true
+    _accepted['False'] = match.false
     _accepted['None'] = lambda e: e is None
 
     def __init__(self, string, elementQuery=None):
-- 
2.43.0


From d9e7cf96b80f8e7aea89a53895a2bee5a4857d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 046/178] fix: fillMatching with a boolean object matches the
 order of the limited points or features

---
 nimble/core/data/axis.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 3fc348c..5384eed 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -813,13 +813,12 @@ class Axis(ABC):
 
         # if matchingElements is a boolean matrix we need to provide the
         # corresponding boolean vector for the vector passed to _transform
-        try:
-            idxOrder = iter(limitTo)
-        except TypeError:
-            if limitTo is None:
-                idxOrder = iter(range(len(self)))
-            else: # limitTo is a single identifier
-                idxOrder = iter([self._getIndex(limitTo)])
+        if limitTo is None:
+            idxOrder = iter(range(len(self)))
+        else:
+            # _transform follows the order of this axis
+            idxOrder = iter(sorted(set(constructIndicesList(
+                self._base, self._axis, limitTo))))
 
         @functools.wraps(fillFunc)
         def fillFunction(vector):
-- 
2.43.0


From 47b658f80c492553671eb40010b87df0dff8ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 047/178] fix: fillMatching ignores the names of a boolean
 matchingElements object

---
 nimble/core/learn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 949f571..fdad334 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -652,7 +652,9 @@ def fillMatching(learnerName, matchingElements, trainX, arguments=None,
             checkNans = False
     if checkNans:
         nanLocs = trainX.matchingElements(match.missing, useLog=False)
-        if matchMatrix | nanLocs != matchMatrix:
+        if any(isNan and not isMatch for isNan, isMatch
+               in zip(nanLocs.iterateElements(),
+                      matchMatrix.iterateElements())):
             msg = "filling requires all unmatched elements to be non-nan"
             raise ImproperObjectAction(msg)
 
-- 
2.43.0


From 7f10a7d62d92148640504d481e7e22178adbd4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 048/178] fix: features.mode accepts groupByFeature

---
 nimble/core/data/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index db597ca..2b718a1 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2981,7 +2981,7 @@ class Features(ABC):
    
     
     @limitedTo2D
-    def mode(self,grouByFeature=None):
+    def mode(self, groupByFeature=None):
         """
         Returns a nimble object representing the mode along 
         the features axis.
@@ -3004,7 +3004,7 @@ class Features(ABC):
          mode │ 0  2  2
         >
         """
-        return self._mode(grouByFeature)
+        return self._mode(groupByFeature)
     
     @limitedTo2D
     def sum(self, groupByFeature=None):
-- 
2.43.0


From a6de399aad8ba208b0c0a0f07208831025ddbe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 049/178] fix: calculate.sum gives nan for non-numeric values
 as documented

---
 nimble/calculate/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/calculate/statistic.py b/nimble/calculate/statistic.py
index 5666e07..2ab9df7 100644
--- a/nimble/calculate/statistic.py
+++ b/nimble/calculate/statistic.py
@@ -506,6 +506,7 @@ def count(values):
     """
     return _sum(1 for _ in values.iterateElements(only=nonMissing))
 
+@numericRequired
 def sum(values): # pylint: disable=redefined-builtin
     """
     The sum of the values in the vector.
-- 
2.43.0


From 651faed9ac499268f5ab07c9af7148708258f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 050/178] fix: confusionMatrix accepts labels with a percent
 sign

---
 nimble/calculate/similarity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/calculate/similarity.py b/nimble/calculate/similarity.py
index 1327cd9..e68a286 100644
--- a/nimble/calculate/similarity.py
+++ b/nimble/calculate/similarity.py
@@ -284,6 +284,9 @@ def confusionMatrix(knownValues, predictedValues, labels=None,
 
 _intMapCache = {} # increase efficiency by caching
 def _mapInt(val):
+    if isinstance(val, str):
+        # the modulo operator would format the string
+        return val
     if val in _intMapCache:
         return _intMapCache[val]
 
-- 
2.43.0


From 4aea4d2e95dde878240b531b549a7d32fcce72fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 051/178] fix: percentileNormalize ignores every missing value

---
 nimble/calculate/normalize.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/nimble/calculate/normalize.py b/nimble/calculate/normalize.py
index 3c59fd0..f93f3ec 100644
--- a/nimble/calculate/normalize.py
+++ b/nimble/calculate/normalize.py
@@ -234,11 +234,8 @@ def percentileNormalize(values1, values2=None):
 
     # index locations of sorted values
     argsort = np.argsort(arr1)
-    anyNan = any(map(np.isnan, arr1))
-    if anyNan: # ignore index for nan
-        epsilon = 1 / (len(arr1) - 2)
-    else:
-        epsilon = 1 / (len(arr1) - 1)
+    # ignore nan values, argsort places all of them last
+    epsilon = 1 / (len(arr1) - int(np.isnan(arr1).sum()) - 1)
     for i, idx in enumerate(argsort):
         if not np.isnan(percentiles[idx]):
             percentiles[idx] = i * epsilon
-- 
2.43.0


From bcd3e9b9e411d20bced449fe98333e31820bfd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 052/178] fix: normalize with applyResultTo accepts a single
 feature identifier

---
 nimble/core/data/features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 2b718a1..4f55e29 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -38,6 +38,7 @@ from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
 from ._dataHelpers import limitedTo2D, prepLog, validateAxisFunction
+from ._dataHelpers import constructIndicesList
 
 class Features(ABC):
     """
@@ -2003,7 +2004,8 @@ class Features(ABC):
                 msg += 'featureNames of the calling object'
                 raise InvalidArgumentValue(msg)
             if features is not None:
-                features = list(map(self._getIndex, features))
+                features = constructIndicesList(self._base, self._axis,
+                                                features)
             self._validateTransformable()
             applyResultTo.features._validateTransformable()
             # all results are validated before either object is modified
-- 
2.43.0


From 460e4483657660f1c861930c2223787f5a40008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:05 +0000
Subject: [PATCH 053/178] fix: normalize does not compare default feature names

---
 nimble/core/data/features.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 4f55e29..4f79c7e 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -1998,7 +1998,9 @@ class Features(ABC):
                 raise InvalidArgumentValue(msg)
             selfNames = self._getNamesNoGeneration()
             applyToNames = applyResultTo.features._getNamesNoGeneration()
-            if ((selfNames is not None and applyToNames is not None)
+            # names that are all default are equal to not having any names
+            if (not self._allDefaultNames()
+                    and not applyResultTo.features._allDefaultNames()
                     and selfNames != applyToNames):
                 msg = 'applyResultTo featureNames do not match the '
                 msg += 'featureNames of the calling object'
-- 
2.43.0


From 4c4d4e5bc2b5a9ee1039f7da57197c8b2bb2097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 054/178] fix: trainAndTestSets extracts the labels when the
 testing set is empty

---
 nimble/core/data/base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ddfc0e7..d7bc3a2 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1715,13 +1715,8 @@ class Base(ABC):
                     msg += "more than two dimensions"
                     raise ImproperObjectAction(msg)
 
-                # safety for empty objects
-                toExtract = labels
-                if testXSize == 0:
-                    toExtract = []
-
-                trainY = trainX.features.extract(toExtract, useLog=False)
-                testY = testX.features.extract(toExtract, useLog=False)
+                trainY = trainX.features.extract(labels, useLog=False)
+                testY = testX.features.extract(labels, useLog=False)
 
             if self.name is not None:
                 trainX.name = self.name + "_trainX"
-- 
2.43.0


From 0e9e86f4f1dfe347bf3c085d20765f2d011d8b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 055/178] fix: trainAndTestSets accepts a labels object with
 default names

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index d7bc3a2..7bb6720 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1705,7 +1705,8 @@ class Base(ABC):
                     labelNames = labels.features.getNames()
                     # filter names for ones that overlap with self
                     namesInBoth = [name for name in labelNames
-                                   if self.features.hasName(name)]
+                                   if name is not None
+                                   and self.features.hasName(name)]
                     if namesInBoth:
                         trainX.features.delete(namesInBoth, useLog=False)
                         testX.features.delete(namesInBoth, useLog=False)
-- 
2.43.0


From 69e70637b704faa1fb5099bbd0e892f1fc74aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 056/178] fix: scikit-learn learners do not hold on to the data
 of a Matrix

---
 nimble/core/interfaces/scikit_learn_interface.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nimble/core/interfaces/scikit_learn_interface.py b/nimble/core/interfaces/scikit_learn_interface.py
index f8500f3..0dc6683 100644
--- a/nimble/core/interfaces/scikit_learn_interface.py
+++ b/nimble/core/interfaces/scikit_learn_interface.py
@@ -500,14 +500,11 @@ To install scikit-learn
     def _inputTransformation(self, learnerName, trainX, trainY, testX,
                              randomSeed, arguments, customDict):
 
-        mustCopyTrainX = ['PLSRegression']
+        # trainX is always copied; learners can hold on to their training data
         if trainX is not None:
             customDict['match'] = trainX.getTypeString()
             if trainX.shape != trainX.dimensions:
                 trainX = trainX.copy(to='numpy array')
-            elif (trainX.getTypeString() == 'Matrix'
-                    and learnerName not in mustCopyTrainX):
-                trainX = trainX._data
             elif trainX.getTypeString() == 'Sparse':
                 trainX = trainX.copy()._data
             else:
-- 
2.43.0


From 1e2b2db412307dcfd60ee53389cd9a8eefffda8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 057/178] fix: tuning with validation data does not retrain the
 best learner

---
 nimble/core/tune.py | 56 ++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index abd34be..30fad36 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -575,8 +575,6 @@ class HoldoutData(HoldoutValidator):
         self._trainedLearner = None
         self._trainedLearnerBase = None
         self._incremental = None if allowIncremental else False
-        self._updater = None
-        self._lastArguments = {}
         self.bestTrainedLearner = None
 
     def validate(self, arguments=None, record=True, **kwarguments):
@@ -590,41 +588,43 @@ class HoldoutData(HoldoutValidator):
             self._arguments.append(arguments)
             if self._best is None or self._isBest(performance, self._best[0]):
                 self._best = (performance, arguments)
-                self.bestTrainedLearner = copy.copy(self._trainedLearnerBase)
+                self.bestTrainedLearner = self._copyTrainedLearner(
+                    self._trainedLearner)
 
         return performance
 
+    def _copyTrainedLearner(self, trainedLearner):
+        """
+        A copy that is not affected by further incremental training.
+        """
+        ret = copy.copy(trainedLearner)
+        if self._incremental is not False:
+            ret._arguments = trainedLearner._arguments.copy()
+            ret._backend = copy.deepcopy(trainedLearner._backend)
+        return ret
+
     def _updateTrainedLearner(self, trial):
         if trial:
-            self._trainedLearner = copy.copy(self._trainedLearnerBase)
+            self._trainedLearner = self._copyTrainedLearner(
+                self._trainedLearnerBase)
         else:
             self._trainedLearner = self._trainedLearnerBase
 
     def _validate(self, arguments):
-        if self._trainedLearner is None:
-            self._trainedLearnerBase = nimble.train(
-                self.learnerName, self.X, self.Y, arguments, useLog=False)
-            self._trainedLearner = self._trainedLearnerBase
-            self._lastArguments = arguments
-        elif self._updater is None:
-            if self._incremental is None:
-                try:
-                    self._trainedLearner.incrementalTrain(
-                        self.X, self.Y, arguments, useLog=False)
-                    self._updater = self._trainedLearner.incrementalTrain
-                    self._incremental = True
-                except TypeError:
-                    self._incremental = False
-            if not self._incremental:
-                self._updater = self._trainedLearner.retrain
-                # only retrain if arguments have changed
-                if arguments != self._lastArguments:
-                    self._trainedLearner.retrain(self.X, self.Y, arguments,
-                                                 useLog=False)
-            self._lastArguments = arguments
-        elif self._incremental or arguments != self._lastArguments:
-            self._updater(self.X, self.Y, arguments, useLog=False)
-            self._lastArguments = arguments
+        if (self._trainedLearnerBase is not None
+                and self._incremental is not False):
+            try:
+                self._trainedLearner.incrementalTrain(
+                    self.X, self.Y, arguments, useLog=False)
+                self._incremental = True
+            except TypeError:
+                self._incremental = False
+        if not self._incremental:
+            # a new learner so that the best learner is never modified
+            self._trainedLearner = nimble.train(
+                self.learnerName, self.X, self.Y, arguments,
+                randomSeed=self.randomSeed, useLog=False)
+            self._trainedLearnerBase = self._trainedLearner
 
         performance = self._trainedLearner.test(
             self.performanceFunction, self.validateX, self.validateY,
-- 
2.43.0


From 4b098517ab718858ba2ce67287b43600afe03263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 058/178] fix: a Tuning with iterative selection can be copied

---
 nimble/core/tune.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 30fad36..182b93c 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1807,9 +1807,12 @@ class Tuning:
         """
         A new Tuner with attributes based on the latest tuning.
         """
+        # set during init based on the selection
+        validatorArgs = {arg: val for arg, val in self._validatorArgs.items()
+                         if arg != 'allowIncremental'}
         ret = Tuning(selection=self.selection, validation=self.validation,
                      performanceFunction=self.performanceFunction,
-                     **self._selectorArgs, **self._validatorArgs)
+                     **self._selectorArgs, **validatorArgs)
         ret.validator = self.validator
         ret.arguments = self.arguments
         ret._sortedResults = self._sortedResults
-- 
2.43.0


From 8072cef95564b5f0af833ada8c7794f64e981043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 059/178] fix: iterative tuning moves to the better of two
 better arguments

---
 nimble/core/tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 182b93c..9e9fe6a 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1107,10 +1107,10 @@ class Iterative(ArgumentSelector):
                 highBest = False
             if lowBest and highBest: # select better of the two
                 if self.validator._isBest(perfHigh, perfLow):
-                    best[name] = argLow
+                    best[name] = argHigh
                     self._tuneIdx[name] += 1
                 else:
-                    best[name] = argHigh
+                    best[name] = argLow
                     self._tuneIdx[name] -= 1
             elif lowBest:
                 best[name] = argLow
-- 
2.43.0


From 2c89855841375298ff25478fabf2e98c26c17778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 060/178] fix: consecutive tuning continues when an argument
 has no more values

---
 nimble/core/tune.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 9e9fe6a..bb66ce8 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -852,28 +852,26 @@ class Consecutive(ArgumentSelector):
         elif not self.order: # no Tune objects
             raise StopIteration
         else:
-            target = self.order[self._target]
-            try:
-                self._currArgs[target] = next(self._tune[target])
-            except StopIteration:
-                if self._target + 1 < len(self.order): # next argument
-                    self._currArgs[target] = self._bestArgs[target]
-                    self._target += 1
-                    target = self.order[self._target]
-                    self._currArgs[target] = next(self._tune[target])
-                # new loop
-                elif self._currentLoop + 1 > self.loops:
-                    raise
-                else:
-                    self._currentLoop += 1
-                    self._target = 0
-                    target = self.order[self._target]
-                    self._currArgs = self._bestArgs.copy()
-                    for key in self.order:
-                        iterator = iter(val for val in self.arguments[key]
-                                        if val != self._currArgs[key])
-                        self._tune[key] = iterator
+            while True:
+                target = self.order[self._target]
+                try:
                     self._currArgs[target] = next(self._tune[target])
+                    break
+                except StopIteration:
+                    if self._target + 1 < len(self.order): # next argument
+                        self._currArgs[target] = self._bestArgs[target]
+                        self._target += 1
+                    # new loop
+                    elif self._currentLoop + 1 > self.loops:
+                        raise
+                    else:
+                        self._currentLoop += 1
+                        self._target = 0
+                        self._currArgs = self._bestArgs.copy()
+                        for key in self.order:
+                            iterator = iter(val for val in self.arguments[key]
+                                            if val != self._currArgs[key])
+                            self._tune[key] = iterator
         # go to next if currArgs were already tried in a previous loop
         if tuple(self._currArgs.items()) in self._tried:
             return self.__next__()
-- 
2.43.0


From 13fd6c9efa35a18dd3e1297a7b847f0d5dc95c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 061/178] fix: consecutive tuning accepts arguments that are
 not hashable

---
 nimble/core/tune.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index bb66ce8..01a8473 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -826,7 +826,7 @@ class Consecutive(ArgumentSelector):
         self._bestPerformance = None
         self._bestArgs = None
         self._currArgs = None
-        self._tried = set()
+        self._tried = []
 
     def __next__(self):
         if self._currentLoop > self.loops:
@@ -873,10 +873,10 @@ class Consecutive(ArgumentSelector):
                                             if val != self._currArgs[key])
                             self._tune[key] = iterator
         # go to next if currArgs were already tried in a previous loop
-        if tuple(self._currArgs.items()) in self._tried:
+        if self._currArgs in self._tried:
             return self.__next__()
         # save combo to avoid future loops from repeating combo
-        self._tried.add(tuple(self._currArgs.items()))
+        self._tried.append(self._currArgs.copy())
         performance = self.validator.validate(self._currArgs)
         if (self._bestPerformance is None
                 or self.validator._isBest(performance, self._bestPerformance)):
-- 
2.43.0


From 8c8b6fe7cc3d4819c774736f7c18b0a4b2235574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 062/178] fix: tuning does not name the provided validation
 data

---
 nimble/core/tune.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 01a8473..2f62f2b 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -503,9 +503,12 @@ class HoldoutValidator(Validator):
             msg += "points"
             raise InvalidArgumentValueCombination(msg)
 
+        # names for the log, must not modify the provided objects
         if validateX.name is None:
+            validateX = validateX.copy()
             validateX.name = "validateX"
         if validateY.name is None:
+            validateY = validateY.copy()
             validateY.name = "validateY"
 
         self.validateX = validateX
-- 
2.43.0


From 4603ef6b5674f7335db28edfc13508c4436617dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 063/178] fix: tuning with a random seed is reproducible

---
 nimble/core/tune.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 2f62f2b..ed2a98e 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -33,6 +33,7 @@ import copy
 import sys
 from timeit import default_timer
 from functools import wraps
+from contextlib import nullcontext
 
 from packaging.version import Version
 import numpy as np
@@ -44,7 +45,7 @@ from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import ImproperObjectAction, PackageException
 from nimble.core.logger import handleLogging, loggingEnabled
 from nimble.core.logger import deepLoggingEnabled
-from nimble.random import pythonRandom, numpyRandom
+from nimble.random import pythonRandom, numpyRandom, alternateControl
 from nimble.core._learnHelpers import computeMetrics
 from nimble._utility import prettyDictString, prettyListString, quoteStrings
 from nimble._utility import mergeArguments
@@ -1737,12 +1738,18 @@ class Tuning:
             raise InvalidArgumentValue(msg)
         if self.performanceFunction is None:
             self.performanceFunction = performanceFunction
-        self.validator = self._validator(
-            learnerName, trainX, trainY, self.performanceFunction,
-            randomSeed=randomSeed, useLog=useLog, **self._validatorArgs)
-        selector = self._selector(arguments, self.validator,
-                                  **self._selectorArgs)
-        selector.validateAll()
+        # the folds and selections of a given seed must be reproducible
+        if randomSeed is None:
+            control = nullcontext()
+        else:
+            control = alternateControl(randomSeed, useLog=False)
+        with control:
+            self.validator = self._validator(
+                learnerName, trainX, trainY, self.performanceFunction,
+                randomSeed=randomSeed, useLog=useLog, **self._validatorArgs)
+            selector = self._selector(arguments, self.validator,
+                                      **self._selectorArgs)
+            selector.validateAll()
 
         # reverse based on optimal for performanceFunction
         highestIsBest = self.validator.optimal == 'max'
-- 
2.43.0


From 62d12b34f4d380b5aa70d2833d53c51ea3e2105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 064/178] fix: Tune of a descending range ends where the range
 does

---
 nimble/core/tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index ed2a98e..6639943 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1398,7 +1398,7 @@ class Tune:
         if isinstance(values, range):
             self._values = None
             self._start = values.start
-            self._end = values.stop - 1
+            self._end = values.stop - (1 if values.step > 0 else -1)
             self._change = values.step
 
         self._args = {'values': values, 'start': start, 'end': end,
-- 
2.43.0


From 65ae3f59a695db9485c3f56e5e33790a1253da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 065/178] fix: Tune does not multiply forever

---
 nimble/core/tune.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 6639943..1d7bb53 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1425,8 +1425,12 @@ class Tune:
             start = self._start
             change = self._change
             self._values = []
+            if not linear and (self._start <= 0 or self._end <= 0):
+                msg = "start and end must be greater than 0 when changeType "
+                msg += "is 'multiply'"
+                raise InvalidArgumentValue(msg)
             if self._start < self._end:
-                if not linear and change < 1:
+                if not linear and change <= 1:
                     msg = "change must be greater than 1"
                     raise InvalidArgumentValue(msg)
                 if linear and change <= 0:
-- 
2.43.0


From f5fe8b71343451000df760bbf3e13379f82c9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 066/178] fix: Tune accepts the same start and end

---
 nimble/core/tune.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 1d7bb53..993d869 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1446,6 +1446,10 @@ class Tune:
                     raise InvalidArgumentValue(msg)
                 comp = operator.ge
 
+            else:
+                self._values.append(start)
+                comp = operator.ne
+
             curr = self._start
             while comp(curr, self._end):
                 self._values.append(curr)
-- 
2.43.0


From 2153477ae3f653453e13852ebed7290abea78694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 067/178] fix: Tune accepts nonlinear values with a zero

---
 nimble/core/tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 993d869..560d3ed 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1473,7 +1473,7 @@ class Tune:
                         self._end = sort[-1]
                         self._change = difLin
                         self._changeType = 'add'
-                    elif sort[0]:
+                    elif all(sort):
                         difExp = sort[1] / sort[0]
                         expDiffs = (sort[i + 1] / sort[i] for i
                                     in range(len(sort) - 1))
-- 
2.43.0


From 34c161bcfdec3ac5c2de6aca152d947024f199c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 068/178] fix: bayesian tuning only samples values in the range
 of the Tune

---
 nimble/core/tune.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 560d3ed..33e9657 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -954,11 +954,9 @@ class Bayesian(ArgumentSelector):
                         space[name] = hp.uniformint(name, arg._start, arg._end,
                                                     q=arg._change)
                     else:
-                        space[name] = hp.quniform(name, arg._start, arg._end,
-                                                  arg._change)
+                        space[name] = self._orderedChoice(name, arg)
                 elif arg._changeType == 'exponential':
-                    space[name] = hp.qloguniform(name, arg._start, arg._end,
-                                                 arg._change)
+                    space[name] = self._orderedChoice(name, arg)
                 else:
                     space[name] = hp.choice(name, arg._values)
             else:
@@ -981,6 +979,14 @@ class Bayesian(ArgumentSelector):
         self._stopIteration = False
         self._startTime = None
 
+    def _orderedChoice(self, name, arg):
+        """
+        Sample the position in the sorted values. The quantized uniform
+        distributions of hyperopt can be outside of the range of values.
+        """
+        values = hyperopt.pyll.as_apply(sorted(arg))
+        return values[hyperopt.hp.uniformint(name, 0, len(arg) - 1)]
+
     def __next__(self):
         # calling next on FMinIter does not properly manage threshold and
         # timing so these are handled internally
-- 
2.43.0


From 33053753ea435235f8feafe0a3c9fa619022c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:13 +0000
Subject: [PATCH 069/178] fix: bayesian tuning accepts descending and single
 value ranges

---
 nimble/core/tune.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 33e9657..52c1010 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -948,11 +948,11 @@ class Bayesian(ArgumentSelector):
         for name, arg in self.arguments.items():
             if isinstance(arg, Tune):
                 self._noTune = False
-                if arg._changeType == 'add':
+                if arg._changeType == 'add' and len(arg) > 1:
                     if all(v % 1 == 0 for v
                            in [arg._start, arg._end, arg._change]):
-                        space[name] = hp.uniformint(name, arg._start, arg._end,
-                                                    q=arg._change)
+                        space[name] = hp.uniformint(name, min(arg), max(arg),
+                                                    q=abs(arg._change))
                     else:
                         space[name] = self._orderedChoice(name, arg)
                 elif arg._changeType == 'exponential':
-- 
2.43.0


From 5c8bc725c178e9ae6a4315273f19d1e04ae8d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 070/178] fix: bayesian tuning without a Tune argument
 validates the arguments

---
 nimble/core/tune.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 52c1010..8604b1a 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -993,7 +993,8 @@ class Bayesian(ArgumentSelector):
         if self._startTime is None:
             self._startTime = default_timer()
         if (self._stopIteration
-                or (self._noTune and self.validator._incremental is False)
+                or (self._noTune and self.validator._results
+                    and self.validator._incremental is False)
                 or (self.timeout is not None
                     and default_timer() - self._startTime > self.timeout)
                 or (self.validator._results and self.threshold is not None
-- 
2.43.0


From ec5cb037d21d4c52df710bfa1278e2ef78d221f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:27 +0000
Subject: [PATCH 071/178] fix: each loop of consecutive tuning tries every
 value of an argument

---
 nimble/core/tune.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 8604b1a..06ee606 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -873,9 +873,10 @@ class Consecutive(ArgumentSelector):
                         self._target = 0
                         self._currArgs = self._bestArgs.copy()
                         for key in self.order:
-                            iterator = iter(val for val in self.arguments[key]
-                                            if val != self._currArgs[key])
-                            self._tune[key] = iterator
+                            # a list because key and _currArgs will change
+                            vals = [val for val in self.arguments[key]
+                                    if val != self._currArgs[key]]
+                            self._tune[key] = iter(vals)
         # go to next if currArgs were already tried in a previous loop
         if self._currArgs in self._tried:
             return self.__next__()
-- 
2.43.0


From 45cf0ea3149bd8f1181324faa63480737ab5350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 072/178] fix: KNNClassifier distances are precise for large
 values

---
 nimble/learners/knn_classification.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nimble/learners/knn_classification.py b/nimble/learners/knn_classification.py
index bb4b428..8e8b71d 100644
--- a/nimble/learners/knn_classification.py
+++ b/nimble/learners/knn_classification.py
@@ -102,10 +102,11 @@ class KNNClassifier(CustomLearner):
         """
         trainArray = dtypeConvert(self._trainX.copy('numpy array'))
         testArray = dtypeConvert(testX.copy('numpy array'))
-        # euclidean distance for each point in test
-        dists = np.sqrt(-2 * np.dot(testArray, trainArray.T)
-                           + np.sum(trainArray**2, axis=1)
-                           + np.sum(testArray**2, axis=1)[:, np.newaxis])
+        # euclidean distance for each point in test. Expanding the square of
+        # the difference would lose the precision of nearby points.
+        dists = np.empty((len(testArray), len(trainArray)))
+        for i, point in enumerate(testArray):
+            dists[i] = np.sqrt(np.sum((trainArray - point)**2, axis=1))
         return dists
 
 
-- 
2.43.0


From b7e43bcd42814bdb3972c9c1c50e9cffae5f4c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 073/178] fix: KNNClassifier does not hold on to the provided
 data

---
 nimble/learners/knn_classification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/learners/knn_classification.py b/nimble/learners/knn_classification.py
index 8e8b71d..dceab89 100644
--- a/nimble/learners/knn_classification.py
+++ b/nimble/learners/knn_classification.py
@@ -40,8 +40,9 @@ class KNNClassifier(CustomLearner):
 
     def train(self, trainX, trainY, k=5):
         self.k = k
-        self._trainX = trainX
-        self._trainY = trainY
+        # copies so that later changes to the data do not affect this learner
+        self._trainX = trainX.copy()
+        self._trainY = trainY.copy()
 
     def apply(self, testX):
         dists = self._getDistanceMatrix(testX)
-- 
2.43.0


From 3eaa0c9a1345496fda2fd33d788bdedb49800621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 074/178] fix: KNNImputation fills the missing values of other
 data

---
 nimble/learners/knn_imputation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/learners/knn_imputation.py b/nimble/learners/knn_imputation.py
index 4e3d740..037ff5d 100644
--- a/nimble/learners/knn_imputation.py
+++ b/nimble/learners/knn_imputation.py
@@ -61,13 +61,16 @@ class KNNImputation(CustomLearner):
                 msg += 'regression mode.'
                 raise InvalidArgumentValue(msg)
 
+        self.trainX = trainX.copy()
         match = _convertMatchToFunction(np.nan)
         self.match = trainX.matchingElements(match, useLog=False)
 
     def apply(self, testX):
         testData = testX.copy()
+        match = _convertMatchToFunction(np.nan)
+        toFill = testX.matchingElements(match, useLog=False)
         result = []
-        for pt, fill in zip(testData.points, self.match.points):
+        for pt, fill in zip(testData.points, toFill.points):
             newPt = list(pt)
             if anyTrue(fill):
                 fillIdx = []
@@ -82,7 +85,7 @@ class KNNImputation(CustomLearner):
                     keepIdx.append(ftIdx)
                     cannotTrain = map(anyTrue, self.match[:, keepIdx].points)
                     trainIdx = [i for i, v in enumerate(cannotTrain) if not v]
-                    toTrain = testData[trainIdx, keepIdx]
+                    toTrain = self.trainX[trainIdx, keepIdx]
                     pred = nimble.trainAndApply(
                         self.learner, toTrain, -1, toPredict, useLog=False,
                         **self.kwargs)
-- 
2.43.0


From c6e9d7875477883f2e6cf01ef67fcb32ca8c7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 075/178] fix: scores for each of three labels when there is a
 single feature

---
 nimble/core/interfaces/_interface_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/_interface_helpers.py b/nimble/core/interfaces/_interface_helpers.py
index 91ea0e7..f2265ba 100644
--- a/nimble/core/interfaces/_interface_helpers.py
+++ b/nimble/core/interfaces/_interface_helpers.py
@@ -165,7 +165,10 @@ def checkClassificationStrategy(interface, learnerName, trainArgs, scoreArgs,
     # have one of each label
     numPointsPerCluster = max(1, numPts // 4) * 2
     dataX, _, dataY = generateClusteredPoints(4, numPointsPerCluster,
-                                              numFts, addLabelNoise=False)
+                                              max(2, numFts),
+                                              addLabelNoise=False)
+    if numFts == 1: # the sum differs for each cluster
+        dataX = dataX.features[0] + dataX.features[1]
     reorder = []
     for i in range(numPointsPerCluster):
         for j in range(4):
-- 
2.43.0


From c68d03e737dbf932ee43d9d051b727e47e9e7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:30 +0000
Subject: [PATCH 076/178] fix: multiClassStrategy is accepted in any case

---
 nimble/core/interfaces/universal_interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index a7b90e6..d8eb96a 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -196,6 +196,10 @@ class UniversalInterface(metaclass=abc.ABCMeta):
         self._confirmValidLearner(learnerName)
         randomSeed = self._getValidSeed(randomSeed)
 
+        if multiClassStrategy is not None:
+            # accepted in any case
+            multiClassStrategy = multiClassStrategy.lower()
+
         if multiClassStrategy != 'default':
             # TODO reevaluate use of checkClassificationStrategy, the if
             # statements below expect a string output but it looks to output
@@ -206,7 +210,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
             # trialResult = checkClassificationStrategy(self, learnerName,
             #                                           arguments)
             #1 VS All
-            if multiClassStrategy == 'OneVsAll':
+            if multiClassStrategy == 'onevsall':
                 # and trialResult != 'OneVsAll':?
                 #Remove true labels from from training set, if not separated
                 if isinstance(trainY, (str, numbers.Integral)):
@@ -241,7 +245,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                 return TrainedLearners(trainedLearners, 'OneVsAll', labelSet)
 
             #1 VS 1
-            if multiClassStrategy == 'OneVsOne':
+            if multiClassStrategy == 'onevsone':
                 # and trialResult != 'OneVsOne': ?
                 # want data and labels together in one object for this method
                 trainX = trainX.copy()
-- 
2.43.0


From 68e295a5fd00248de0235ea49d1435dee2ac2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:30 +0000
Subject: [PATCH 077/178] fix: scoreMode is accepted in any case

---
 nimble/core/interfaces/universal_interface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index d8eb96a..8ca92ae 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1246,6 +1246,9 @@ class TrainedLearner(object):
                                      scoreMode=scoreMode,
                                      has2dOutput=self._has2dOutput)
         self._validTestData(testX)
+        if scoreMode is not None:
+            # accepted in any case
+            scoreMode = scoreMode.lower()
 
         mergedArguments = mergeArguments(arguments, kwarguments)
 
@@ -1260,7 +1263,7 @@ class TrainedLearner(object):
         # depending on the mode, we need different information.
         if scoreMode is not None:
             scores = self.getScores(testX, usedArguments)
-        if scoreMode != 'allScores':
+        if scoreMode != 'allscores':
             labels = self._interface._applier(self.learnerName, self._backend,
                                               transTestX, usedArguments,
                                               self._transformedArguments,
@@ -1275,12 +1278,12 @@ class TrainedLearner(object):
             ret = labels
             if applyFtNames:
                 ret.features.setNames(self._trainYNames, useLog=False)
-        elif scoreMode == 'allScores':
+        elif scoreMode == 'allscores':
             ret = scores
             if applyFtNames:
                 scoreOrder = self._interface._getScoresOrder(self._backend)
                 ret.features.setNames(map(str, scoreOrder), useLog=False)
-        elif scoreMode == 'bestScore':
+        elif scoreMode == 'bestscore':
             scoreOrder = self._interface._getScoresOrder(self._backend)
             scoreOrder = list(scoreOrder)
             scores.features.append(labels, useLog=False)
-- 
2.43.0


From 6459b99cd52e6b184928cb5d6d0cf62719ba0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:30 +0000
Subject: [PATCH 078/178] fix: OneVsOne training uses the same features for
 every pair of labels

---
 nimble/core/interfaces/universal_interface.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 8ca92ae..0b6f09e 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -261,16 +261,15 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                 labelSet = list(set(labelVectorToList))
                 labelPairs = generateAllPairs(labelSet)
 
-                # For each pair of class labels: remove all points with one of
+                # For each pair of class labels: copy all points with one of
                 # those labels, train a classifier on those points, get
-                # predictions based on that model, and put the points back into
-                # the data object
+                # predictions based on that model
                 trainedLearners = []
                 for pair in labelPairs:
                     # get all points that have one of the labels in pair
-                    pairData = trainX.points.extract(
+                    pairData = trainX.points.copy(
                         # pylint: disable=cell-var-from-loop
-                        lambda point: point[trainY] in pair, useLog=False)
+                        lambda point: point[trainY] in pair)
                     pairTrueLabels = pairData.features.extract(trainY,
                                                                useLog=False)
                     trainedLearners.append(
@@ -279,8 +278,6 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                             pairTrueLabels.copy(), arguments, randomSeed,
                             tuning)
                         )
-                    pairData.features.append(pairTrueLabels, useLog=False)
-                    trainX.points.append(pairData, useLog=False)
 
                 return TrainedLearners(trainedLearners, 'OneVsOne', labelSet)
 
-- 
2.43.0


From 4e2432848511af08ee291bf81303b936303d676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:30 +0000
Subject: [PATCH 079/178] fix: learners of a multiClassStrategy use keyword
 arguments of apply

---
 nimble/core/interfaces/universal_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 0b6f09e..175ade0 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1804,6 +1804,7 @@ class TrainedLearners(TrainedLearner):
         --------
         TODO
         """
+        arguments = mergeArguments(arguments, kwarguments)
         rawPredictions = None
         #1 VS All
         if self.method == 'OneVsAll':
-- 
2.43.0


From c6849927a943049edb4247570e39939d3862d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:30 +0000
Subject: [PATCH 080/178] fix: OneVsOne scores for labels that are not numeric

---
 nimble/core/interfaces/universal_interface.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 175ade0..bf417a5 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1930,7 +1930,12 @@ class TrainedLearners(TrainedLearner):
                     returnType="Matrix", useLog=False)
                 return resultsContainer
             if scoreMode.lower() == 'allScores'.lower():
-                colHeaders = sorted([str(float(i)) for i in self._labelSet])
+                def labelName(label):
+                    if isinstance(label, numbers.Number):
+                        return str(float(label))
+                    return str(label)
+
+                colHeaders = sorted([labelName(i) for i in self._labelSet])
                 colIndices = list(range(len(colHeaders)))
                 labelIndexDict = {v: k for k, v in zip(colIndices, colHeaders)}
                 predictionMatrix = rawPredictions.copy(to="python list")
@@ -1939,7 +1944,7 @@ class TrainedLearners(TrainedLearner):
                     finalRow = [0] * len(colHeaders)
                     scores = countWins(row)
                     for label, score in scores.items():
-                        finalIndex = labelIndexDict[str(float(label))]
+                        finalIndex = labelIndexDict[labelName(label)]
                         finalRow[finalIndex] = score
                     resultsContainer.append(finalRow)
 
-- 
2.43.0


From 28ba092a73514ab6bf91c3daedf527ca10d73f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:30 +0000
Subject: [PATCH 081/178] fix: getScores of a multiClassStrategy gives a score
 for each label

---
 nimble/core/interfaces/universal_interface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index bf417a5..76205de 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1957,6 +1957,11 @@ class TrainedLearners(TrainedLearner):
 
         raise ImproperObjectAction('Wrong multiclassification method.')
 
+    @captureOutput
+    def getScores(self, testX, arguments=None, **kwarguments):
+        return self.apply(testX, arguments, scoreMode='allScores',
+                          useLog=False, **kwarguments)
+
 
 ############################
 # PredefinedInterfaceMixin #
-- 
2.43.0


From 32bc2fba1d16077c071c7936d7af2c3d56a0c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 082/178] fix: OneVsOne training does not combine the labels
 with the data

---
 nimble/core/interfaces/universal_interface.py | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 76205de..954cae7 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -247,16 +247,14 @@ class UniversalInterface(metaclass=abc.ABCMeta):
             #1 VS 1
             if multiClassStrategy == 'onevsone':
                 # and trialResult != 'OneVsOne': ?
-                # want data and labels together in one object for this method
-                trainX = trainX.copy()
-                if isinstance(trainY, nimble.core.data.Base):
-                    trainX.features.append(trainY, useLog=False)
-                    trainY = len(trainX.features) - 1
+                #Remove true labels from from training set, if not separated
+                if isinstance(trainY, (str, numbers.Integral)):
+                    trainX = trainX.copy()
+                    trainY = trainX.features.extract(trainY, useLog=False)
 
                 # Get set of unique class labels, then generate list of all
                 # 2-combinations of class labels
-                labelVector = trainX.features.copy([trainY])
-                labelVector.transpose(useLog=False)
+                labelVector = trainY.T
                 labelVectorToList = labelVector.copy(to="python list")[0]
                 labelSet = list(set(labelVectorToList))
                 labelPairs = generateAllPairs(labelSet)
@@ -267,16 +265,14 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                 trainedLearners = []
                 for pair in labelPairs:
                     # get all points that have one of the labels in pair
-                    pairData = trainX.points.copy(
-                        # pylint: disable=cell-var-from-loop
-                        lambda point: point[trainY] in pair)
-                    pairTrueLabels = pairData.features.extract(trainY,
-                                                               useLog=False)
+                    pairPoints = [i for i, label
+                                  in enumerate(labelVectorToList)
+                                  if label in pair]
                     trainedLearners.append(
                         self._train(
-                            learnerName, pairData.copy(),
-                            pairTrueLabels.copy(), arguments, randomSeed,
-                            tuning)
+                            learnerName, trainX.points.copy(pairPoints),
+                            trainY.points.copy(pairPoints), arguments,
+                            randomSeed, tuning)
                         )
 
                 return TrainedLearners(trainedLearners, 'OneVsOne', labelSet)
-- 
2.43.0


From bd80025b3d2b7e253dd69c1a5c7f8e1507460756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 083/178] fix: retrain keeps the other arguments and changes
 nothing when it fails

---
 nimble/core/interfaces/universal_interface.py | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 954cae7..9b616bd 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1441,11 +1441,13 @@ class TrainedLearner(object):
             has2dOutput = len(outputData.features) > 1
         elif isinstance(outputData, (list, tuple)):
             has2dOutput = len(outputData) > 1
-        self._randomSeed = self._interface._getValidSeed(randomSeed)
+        newSeed = self._interface._getValidSeed(randomSeed)
 
         merged = mergeArguments(arguments, kwarguments)
-        self._interface._validateLearnerArgumentValues(self.learnerName,
-                                                       merged)
+        # previously set values remain the same unless overridden, nothing is
+        # changed until the training has been successful
+        newArguments = dict(self._arguments)
+        newTransformedArguments = dict(self._transformedArguments)
         for arg, value in merged.items():
             if isinstance(value, nimble.Tune):
                 msg = "Cannot provide a hyperparameter tuning arguments "
@@ -1453,8 +1455,10 @@ class TrainedLearner(object):
                 msg += "If wanting to perform hyperparameter tuning, use "
                 msg += "nimble.train()"
                 raise InvalidArgumentValue(msg)
-            self._arguments[arg] = value
-            self._transformedArguments[arg] = value
+            newArguments[arg] = value
+            newTransformedArguments[arg] = value
+        self._interface._validateLearnerArgumentValues(self.learnerName,
+                                                       newArguments)
 
         # separate training data / labels if needed
         if isinstance(trainY, (str, int, np.integer)):
@@ -1462,8 +1466,8 @@ class TrainedLearner(object):
             trainY = trainX.features.extract(toExtract=trainY, useLog=False)
 
         trainedBackend = self._interface._trainBackend(
-            self.learnerName, trainX, trainY, self._transformedArguments,
-            self.randomSeed)
+            self.learnerName, trainX, trainY, newTransformedArguments,
+            newSeed)
 
         newBackend = trainedBackend[0]
         transformedInputs = trainedBackend[1]
@@ -1471,9 +1475,10 @@ class TrainedLearner(object):
 
         self._backend = newBackend
         self._trainXShape = trainX.shape
-        self._arguments = merged
+        self._arguments = newArguments
         self._transformedArguments = transformedInputs[3]
         self._customDict = customDict
+        self._randomSeed = newSeed
         self._has2dOutput = has2dOutput
         self._tuning = None
 
-- 
2.43.0


From dc4cb5f79190c4a782dddcaea469a373b279d74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 084/178] fix: predictions are named after the labels of
 retrain

---
 nimble/core/interfaces/universal_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 9b616bd..0ffca27 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1480,6 +1480,9 @@ class TrainedLearner(object):
         self._customDict = customDict
         self._randomSeed = newSeed
         self._has2dOutput = has2dOutput
+        self._trainYNames = None
+        if trainY is not None:
+            self._trainYNames = trainY.features._getNamesNoGeneration()
         self._tuning = None
 
         handleLogging(useLog, 'TLrun', self, 'retrain', self.arguments, trainX,
-- 
2.43.0


From 4a800cac273ee48abd72de808e1e0b229d891cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 085/178] fix: incrementalTrain accepts the identifier of the
 labels

---
 nimble/core/interfaces/universal_interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 0ffca27..722ad3f 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1519,6 +1519,10 @@ class TrainedLearner(object):
             global option.
         """
         validateLearningArguments(trainX, trainY)
+        # separate training data / labels if needed
+        if isinstance(trainY, (str, int, np.integer)):
+            trainX = trainX.copy()
+            trainY = trainX.features.extract(toExtract=trainY, useLog=False)
         if arguments is not None:
             self.arguments.update(arguments)
         transformed = self._interface._inputTransformation(
-- 
2.43.0


From ee5fd2e6be1f4595f4bfa0f524382b6e431c7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:32 +0000
Subject: [PATCH 086/178] fix: arguments for the apply method of a custom
 learner can be given to train

---
 nimble/core/interfaces/custom_learner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index f4147a1..fe1330b 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -158,8 +158,11 @@ class CustomLearnerInterface(UniversalInterface):
             labels = dtypeConvert(trainY.copy(to='numpyarray'))
             ret.labelList = np.unique(labels)
 
+        # the arguments can also include those for the apply method
+        trainArgs = {arg: value for arg, value in arguments.items()
+                     if arg in ret.getTrainParameters()}
         with nimble.random.alternateControl(randomSeed, useLog=False):
-            ret.train(trainX, trainY, **arguments)
+            ret.train(trainX, trainY, **trainArgs)
 
         return ret
 
-- 
2.43.0


From 40505f5b1e8d2a390d863a2d72a67705ce29d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:53 +0000
Subject: [PATCH 087/178] fix: incrementalTrain of a custom learner trained
 with arguments

---
 nimble/core/interfaces/custom_learner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index fe1330b..c0891fb 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -174,8 +174,12 @@ class CustomLearnerInterface(UniversalInterface):
                 learner.labelList = []
             learner.labelList = np.union1d(learner.labelList, flattenedY)
 
+        # the arguments can also include those for the other methods
+        accepted = inspectArguments(learner.incrementalTrain)[0]
+        trainArgs = {arg: value for arg, value in arguments.items()
+                     if arg in accepted}
         with nimble.random.alternateControl(randomSeed, useLog=False):
-            learner.incrementalTrain(trainX, trainY, **arguments)
+            learner.incrementalTrain(trainX, trainY, **trainArgs)
 
         return learner
 
-- 
2.43.0


From 956caa95fd515f30b5a7ba9d82f9147e5a215abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:53 +0000
Subject: [PATCH 088/178] fix: a failed incrementalTrain does not change the
 arguments

---
 nimble/core/interfaces/universal_interface.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 722ad3f..6f9761a 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1523,11 +1523,12 @@ class TrainedLearner(object):
         if isinstance(trainY, (str, int, np.integer)):
             trainX = trainX.copy()
             trainY = trainX.features.extract(toExtract=trainY, useLog=False)
+        newArguments = dict(self._arguments)
         if arguments is not None:
-            self.arguments.update(arguments)
+            newArguments.update(arguments)
         transformed = self._interface._inputTransformation(
             self.learnerName, trainX, trainY, None, self._randomSeed,
-            self.arguments, self._customDict)
+            newArguments, self._customDict)
         transformedTrainX = transformed[0]
         transformedTrainY = transformed[1]
         transformedArguments = transformed[3]
@@ -1535,6 +1536,7 @@ class TrainedLearner(object):
             self.learnerName, self._backend, transformedTrainX,
             transformedTrainY, transformedArguments, randomSeed,
             self._customDict)
+        self._arguments = newArguments
 
         handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
                       self.arguments, trainX, trainY,
-- 
2.43.0


From 01063bed83ecd867960bfde13fe9a1841aa0d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:53 +0000
Subject: [PATCH 089/178] fix: retrain of a multiClassStrategy trains all of
 its learners

---
 nimble/core/interfaces/universal_interface.py | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 6f9761a..8d2bc25 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1967,6 +1967,37 @@ class TrainedLearners(TrainedLearner):
 
         raise ImproperObjectAction('Wrong multiclassification method.')
 
+    @captureOutput
+    def retrain(self, trainX, trainY=None, arguments=None, randomSeed=None,
+                *, useLog=None, **kwarguments):
+        validateLearningArguments(trainX, trainY, arguments=arguments,
+                                  multiClassStrategy=self.method)
+        newArguments = dict(self._arguments)
+        for arg, value in mergeArguments(arguments, kwarguments).items():
+            if isinstance(value, nimble.Tune):
+                msg = "Cannot provide a hyperparameter tuning arguments "
+                msg += "for parameters to retrain a TrainedLearner. "
+                msg += "If wanting to perform hyperparameter tuning, use "
+                msg += "nimble.train()"
+                raise InvalidArgumentValue(msg)
+            newArguments[arg] = value
+        retrained = self._interface.train(
+            self.learnerName, trainX, trainY, newArguments, self.method,
+            randomSeed)
+        # initialize this object with the new learners
+        self.__init__(retrained._trainedLearnersList, self.method,
+                      retrained._labelSet)
+
+        handleLogging(useLog, 'TLrun', self, 'retrain', self.arguments, trainX,
+                      trainY, randomSeed=self.randomSeed)
+
+    @captureOutput
+    def incrementalTrain(self, trainX, trainY=None, arguments=None,
+                         randomSeed=None, *, useLog=None):
+        msg = "incrementalTrain is not available for learners trained with a "
+        msg += "multiClassStrategy"
+        raise ImproperObjectAction(msg)
+
     @captureOutput
     def getScores(self, testX, arguments=None, **kwarguments):
         return self.apply(testX, arguments, scoreMode='allScores',
-- 
2.43.0


From f4aae2eeb9edac5a18728aeb3aa713f8369db0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 090/178] fix: incrementalTrain of a multiClassStrategy trains
 all of its learners

---
 nimble/core/interfaces/universal_interface.py | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 8d2bc25..bed46f4 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1994,9 +1994,40 @@ class TrainedLearners(TrainedLearner):
     @captureOutput
     def incrementalTrain(self, trainX, trainY=None, arguments=None,
                          randomSeed=None, *, useLog=None):
-        msg = "incrementalTrain is not available for learners trained with a "
-        msg += "multiClassStrategy"
-        raise ImproperObjectAction(msg)
+        validateLearningArguments(trainX, trainY,
+                                  multiClassStrategy=self.method)
+        if isinstance(trainY, (str, int, np.integer)):
+            trainX = trainX.copy()
+            trainY = trainX.features.extract(toExtract=trainY, useLog=False)
+        labels = trainY.T.copy(to="python list")[0]
+        if any(label not in self._labelSet for label in labels):
+            msg = "All of the labels must also be in the original training "
+            msg += "labels"
+            raise InvalidArgumentValue(msg)
+
+        if self.method == 'OneVsAll':
+            for trainedLearner in self._trainedLearnersList:
+                trainLabels = trainY.calculateOnElements(
+                    # pylint: disable=cell-var-from-loop
+                    lambda val: int(val == trainedLearner.label),
+                    useLog=False)
+                trainedLearner.incrementalTrain(
+                    trainX, trainLabels, arguments, randomSeed, useLog=False)
+        else:
+            pairs = generateAllPairs(self._labelSet)
+            for pair, trainedLearner in zip(pairs, self._trainedLearnersList):
+                pairPoints = [i for i, label in enumerate(labels)
+                              if label in pair]
+                if pairPoints:
+                    trainedLearner.incrementalTrain(
+                        trainX.points.copy(pairPoints),
+                        trainY.points.copy(pairPoints), arguments, randomSeed,
+                        useLog=False)
+        self._arguments = self._trainedLearnersList[0].arguments
+
+        handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
+                      self.arguments, trainX, trainY,
+                      randomSeed=self.randomSeed)
 
     @captureOutput
     def getScores(self, testX, arguments=None, **kwarguments):
-- 
2.43.0


From 2a270281979fe784d620f41a828884de3e52b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:35 +0000
Subject: [PATCH 091/178] fix: retraining a learner that was trained without
 arguments

---
 nimble/core/interfaces/universal_interface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index bed46f4..739588f 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1446,8 +1446,8 @@ class TrainedLearner(object):
         merged = mergeArguments(arguments, kwarguments)
         # previously set values remain the same unless overridden, nothing is
         # changed until the training has been successful
-        newArguments = dict(self._arguments)
-        newTransformedArguments = dict(self._transformedArguments)
+        newArguments = dict(self._arguments or {})
+        newTransformedArguments = dict(self._transformedArguments or {})
         for arg, value in merged.items():
             if isinstance(value, nimble.Tune):
                 msg = "Cannot provide a hyperparameter tuning arguments "
@@ -1523,7 +1523,7 @@ class TrainedLearner(object):
         if isinstance(trainY, (str, int, np.integer)):
             trainX = trainX.copy()
             trainY = trainX.features.extract(toExtract=trainY, useLog=False)
-        newArguments = dict(self._arguments)
+        newArguments = dict(self._arguments or {})
         if arguments is not None:
             newArguments.update(arguments)
         transformed = self._interface._inputTransformation(
@@ -1972,7 +1972,7 @@ class TrainedLearners(TrainedLearner):
                 *, useLog=None, **kwarguments):
         validateLearningArguments(trainX, trainY, arguments=arguments,
                                   multiClassStrategy=self.method)
-        newArguments = dict(self._arguments)
+        newArguments = dict(self._arguments or {})
         for arg, value in mergeArguments(arguments, kwarguments).items():
             if isinstance(value, nimble.Tune):
                 msg = "Cannot provide a hyperparameter tuning arguments "
-- 
2.43.0


From de69bdf4e9b812db88529f0464d71336ba437ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:40 +0000
Subject: [PATCH 092/178] fix: log methods called with an array or Series as an
 argument

---
 nimble/core/logger/session_logger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 9bfdfe4..4a9d2fb 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -1208,9 +1208,10 @@ def _buildArgDict(func, logIDs, *args, **kwargs):
     for name, arg in nameArgMap.items():
         if name in defaultDict:
             try:
-                if arg == defaultDict[name]:
+                if bool(arg == defaultDict[name]):
                     continue
-            except TypeError:
+            except (TypeError, ValueError):
+                # array-likes cannot be reduced to a single bool
                 pass
         if callable(arg):
             string = _extractFunctionString(arg)
-- 
2.43.0


From d61c512f78bd8ecfa4150389edfcaf025c2b2cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:40 +0000
Subject: [PATCH 093/178] fix: a randomSeed of 0 is logged

---
 nimble/core/logger/session_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 4a9d2fb..172aea0 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -498,7 +498,7 @@ class SessionLogger(object):
                 arguments = arguments.copy() # don't modify original dict
                 logInfo['arguments'] = literalOnlyArguments(arguments)
 
-            if randomSeed is not None and randomSeed:
+            if randomSeed is not None:
                 logInfo['randomSeed'] = randomSeed
             if metrics is not None and metrics:
                 logInfo["metrics"] = metrics
@@ -1060,7 +1060,7 @@ def _buildRunLogString(timestamp, entry):
         fullLog += textwrap.fill(argString, 79, subsequent_indent=" "*11)
         fullLog += "\n"
     # randomSeed
-    if entry.get("randomSeed", False):
+    if entry.get("randomSeed", None) is not None:
         fullLog += "Random Seed: " + str(entry["randomSeed"])
         fullLog += "\n"
     # extraInfo
-- 
2.43.0


From 5fbb1e05187ccbd8236b34eb50e990ecd6781e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:40 +0000
Subject: [PATCH 094/178] fix: % and _ are not wildcards in the text showLog
 searches for

---
 nimble/core/logger/session_logger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 172aea0..84f7406 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -933,8 +933,12 @@ def _showLogQueryAndValues(leastSessionsAgo, mostSessionsAgo, startDate,
             searchForText = re.compile(searchForText).pattern
             whereQueryList.append("(logType REGEXP ? or logInfo REGEXP ?)")
         else:
+            # the wildcards of LIKE have no special meaning in the text
+            for char in ['\\', '%', '_']:
+                searchForText = searchForText.replace(char, '\\' + char)
             searchForText = "%" + searchForText + "%"
-            whereQueryList.append("(logType LIKE ? or logInfo LIKE ?)")
+            whereQueryList.append("(logType LIKE ? ESCAPE '\\' or "
+                                  "logInfo LIKE ? ESCAPE '\\')")
         includedValues.append(searchForText)
         includedValues.append(searchForText)
 
-- 
2.43.0


From e9018bba1a4c4a366a0534c95fe2637d99ece299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:40 +0000
Subject: [PATCH 095/178] fix: startDate and endDate of showLog can be datetime
 objects

---
 nimble/core/logger/session_logger.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 84f7406..544d988 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -162,11 +162,13 @@ def showLog(levelOfDetail=2, leastSessionsAgo=0, mostSessionsAgo=1,
     if levelOfDetail < 1 or levelOfDetail > 3 or levelOfDetail is None:
         msg = "levelOfDetail must be 1, 2, or 3"
         raise InvalidArgumentValue(msg)
+    if startDate is not None:
+        startDate = stringToDatetime(startDate)
+    if endDate is not None:
+        endDate = stringToDatetime(endDate)
     if (startDate is not None
             and endDate is not None
             and startDate > endDate):
-        startDate = stringToDatetime(startDate)
-        endDate = stringToDatetime(endDate)
         msg = "The startDate must be before the endDate"
         raise InvalidArgumentValueCombination(msg)
     if leastSessionsAgo is not None:
@@ -825,6 +827,8 @@ def stringToDatetime(string):
     be invalid (i.e a date that doesn't exist) this will also raise a
     ValueError.
     """
+    if isinstance(string, datetime.datetime):
+        return string
     string = string.strip()
 
     datetimeArgs = []
-- 
2.43.0


From 09d8bf8cee416078f1b2d5c77d6926b1191d4c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:20 +0000
Subject: [PATCH 096/178] fix: apply of a multiClassStrategy is logged once, as
 a call of its own

---
 nimble/core/interfaces/universal_interface.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 739588f..fd5a24a 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1814,13 +1814,26 @@ class TrainedLearners(TrainedLearner):
         --------
         TODO
         """
+        startTime = time.process_time()
         arguments = mergeArguments(arguments, kwarguments)
+        ret = self._applyStrategy(testX, arguments, scoreMode)
+        totalTime = time.process_time() - startTime
+
+        handleLogging(useLog, 'TLrun', self, "apply", arguments,
+                      testData=testX, time=totalTime, returned=ret)
+
+        return ret
+
+    def _applyStrategy(self, testX, arguments, scoreMode):
+        """
+        Combine the results of the learners, according to the strategy.
+        """
         rawPredictions = None
         #1 VS All
         if self.method == 'OneVsAll':
             for trainedLearner in self._trainedLearnersList:
                 oneLabelResults = trainedLearner.apply(testX, arguments,
-                                                       useLog=useLog)
+                                                       useLog=False)
                 label = trainedLearner.label
                 # put all results into one Base container; same type as trainX
                 if rawPredictions is None:
@@ -1904,7 +1917,7 @@ class TrainedLearners(TrainedLearner):
             for trainedLearner in self._trainedLearnersList:
                 # train classifier on that data; apply it to the test set
                 partialResults = trainedLearner.apply(testX, arguments,
-                                                      useLog=useLog)
+                                                      useLog=False)
                 # put predictions into table of predictions
                 if rawPredictions is None:
                     rawPredictions = partialResults.copy(to="List")
-- 
2.43.0


From 7b7754477cb09f6aa146fcbf3afb177cf1edd136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:20 +0000
Subject: [PATCH 097/178] fix: log a lambda that is not on the first line of
 its source

---
 nimble/core/logger/session_logger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 544d988..f513564 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -1262,7 +1262,10 @@ def _lambdaFunctionString(function):
     """
     try:
         sourceLine = inspect.getsourcelines(function)[0][0]
-        line = re.findall(r'lambda.*', sourceLine)[0]
+        found = re.findall(r'lambda.*', sourceLine)
+        if not found: # the lambda is not on the first line of the source
+            return "<lambda>"
+        line = found[0]
         lambdaString = ""
         afterColon = False
         # lambda always starts after open parenthesis
-- 
2.43.0


From dfeccfe23f7dccc299658afc04c87f8d34122227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:20 +0000
Subject: [PATCH 098/178] fix: showLog shows the whole list of a user log

---
 nimble/core/logger/session_logger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index f513564..df1be6a 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -1141,8 +1141,7 @@ def _buildDefaultLogString(timestamp, logType, entry):
         fullLog += textwrap.fill(entry, 79)
         fullLog += "\n"
     elif isinstance(entry, list):
-        listString = _formatSessionLine(entry)
-        fullLog += textwrap.fill(listString, 79)
+        fullLog += textwrap.fill(str(entry), 79)
         fullLog += "\n"
     else:
         dictString = _dictToKeywordString(entry)
-- 
2.43.0


From 8dd2d9555862e4e9936b3b90f2af567a75d31689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 099/178] fix: the selection of points or features of
 nimble.data is not logged

---
 nimble/core/_createHelpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 5947cff..c8d821c 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1690,9 +1690,9 @@ def initDataObject(
         cleaned = getKeepIndexValues(ret.points, keepPoints)
         if len(cleaned) == numPts:
             pCmp = makeCmp(cleaned, ret, 'point')
-            ret.points.sort(by=pCmp)
+            ret.points.sort(by=pCmp, useLog=False)
         else:
-            ret = ret.points.copy(cleaned)
+            ret = ret.points.copy(cleaned, useLog=False)
         # if we had a subset of pointNames can set now on the cleaned data
         if setPtNamesAfter:
             ret.points.setNames(pointNames, useLog=False)
@@ -1721,9 +1721,9 @@ def initDataObject(
                 raise InvalidArgumentValue(msg)
         if len(cleaned) == numFts:
             fCmp = makeCmp(cleaned, ret, 'feature')
-            ret.features.sort(by=fCmp)
+            ret.features.sort(by=fCmp, useLog=False)
         else:
-            ret = ret.features.copy(cleaned)
+            ret = ret.features.copy(cleaned, useLog=False)
         # if we had a subset of featureNames can set now on the cleaned data
         if setFtNamesAfter:
             ret.features.setNames(featureNames, useLog=False)
-- 
2.43.0


From a384c7c0fe07df25b3f8f4aef449f7187c9e465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 100/178] fix: the steps of a data operation are not logged as
 operations

---
 nimble/core/data/axis.py     | 6 ++++--
 nimble/core/data/base.py     | 9 +++++----
 nimble/core/data/features.py | 6 ++++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 5384eed..576a28e 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1220,7 +1220,8 @@ class Axis(ABC):
                 raise ImproperObjectAction(msg)
             # construct list from function
             if limitTo is not None:
-                obj = self._base._getAxis(self._offAxis).copy(limitTo)
+                obj = self._base._getAxis(self._offAxis).copy(
+                    limitTo, useLog=False)
                 toIter = obj._getAxis(self._axis)
             else:
                 toIter = self
@@ -1521,7 +1522,8 @@ class Axis(ABC):
             if not (objAllDefault or toInsertAllDefault) and reorder:
                 # use copy when reordering so toInsert object is not modified
                 toInsert = toInsert.copy()
-                toInsert._getAxis(self._offAxis).permute(offAxisObj.getNames())
+                toInsert._getAxis(self._offAxis).permute(
+                    offAxisObj.getNames(), useLog=False)
 
         return toInsert
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 7bb6720..c909b82 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1403,7 +1403,7 @@ class Base(ABC):
                 return val
             if val is None or val != val:
                 # check that the feature doesn't have that string.
-                if "NaN" not in list(self.features.copy(ft)):
+                if "NaN" not in list(self.features.copy(ft, useLog=False)):
                     return "NaN"
                 return 'numpy.nan'
             if isinstance(val, numbers.Number):
@@ -3278,7 +3278,7 @@ class Base(ABC):
                 outPath, show, figureID, title, xAxisLabel, yAxisLabel, xMin,
                 xMax, yMin, yMax, **kwargs)
         else:
-            grouped = self.groupByFeature(groupByFeature)
+            grouped = self.groupByFeature(groupByFeature, useLog=False)
             labels = list(grouped.keys())
             lastLabel = labels[-1]
             if 'color' in kwargs:
@@ -3552,8 +3552,9 @@ class Base(ABC):
         if subgroupFeature:
             subgroupFt = self.features[subgroupFeature]
             # remove name in case is same as feature
-            subgroupFt.features.setNames(None, oldIdentifiers=0)
-            toGroup.features.insert(1, subgroupFt)
+            subgroupFt.features.setNames(None, oldIdentifiers=0,
+                                             useLog=False)
+            toGroup.features.insert(1, subgroupFt, useLog=False)
         grouped = toGroup.groupByFeature(0, useLog=False)
 
         axisRange = range(1, len(grouped) + 1)
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 4f79c7e..c543a67 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2465,8 +2465,10 @@ class Features(ABC):
             if 'dataType' not in report.features.getNames():
                 featureDtype = unifyingType(self._base)
                 if featureDtype: 
-                    featureTypes = nimble.data(featureDtype, featureNames=['dataType'])
-                    report.features.append(featureTypes)
+                    featureTypes = nimble.data(
+                        featureDtype, featureNames=['dataType'],
+                        useLog=False)
+                    report.features.append(featureTypes, useLog=False)
 
         handleLogging(useLog, 'report', "feature", str(report))
 
-- 
2.43.0


From f7f0a141b30c909af66d33f1d89759679969437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 101/178] fix: the points chosen for OneVsOne are not logged as
 operations

---
 nimble/core/interfaces/universal_interface.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index fd5a24a..b21143d 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -270,8 +270,10 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                                   if label in pair]
                     trainedLearners.append(
                         self._train(
-                            learnerName, trainX.points.copy(pairPoints),
-                            trainY.points.copy(pairPoints), arguments,
+                            learnerName,
+                            trainX.points.copy(pairPoints, useLog=False),
+                            trainY.points.copy(pairPoints, useLog=False),
+                            arguments,
                             randomSeed, tuning)
                         )
 
@@ -2033,8 +2035,9 @@ class TrainedLearners(TrainedLearner):
                               if label in pair]
                 if pairPoints:
                     trainedLearner.incrementalTrain(
-                        trainX.points.copy(pairPoints),
-                        trainY.points.copy(pairPoints), arguments, randomSeed,
+                        trainX.points.copy(pairPoints, useLog=False),
+                        trainY.points.copy(pairPoints, useLog=False),
+                        arguments, randomSeed,
                         useLog=False)
         self._arguments = self._trainedLearnersList[0].arguments
 
-- 
2.43.0


From b51574f166104130b8b4f8d34e453865ef091a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 102/178] fix: the log entry of tuning a learner given as an
 object

---
 nimble/core/logger/session_logger.py | 41 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index df1be6a..6bc5100 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -453,23 +453,7 @@ class SessionLogger(object):
         if loggingEnabled(useLog):
             logInfo = {}
             logInfo["function"] = nimbleFunction
-            if isinstance(learnerFunction, str):
-                functionCall = learnerFunction
-            else: # learner object was provided directly
-                try:
-                    name = learnerFunction.__name__
-                    module = learnerFunction.__module__.split('.')[0]
-                    package = 'custom'
-                    for interface in nimble.core.interfaces.available.values():
-                        if interface.isAlias(module):
-                            package = interface.getCanonicalName()
-                    functionCall = package + '.' + name
-                # the above should cover all expected cases, but for safety we
-                # will catch any exceptions to prevent a successful operation
-                # from failing here due to a logging issue
-                except Exception: # pylint: disable=broad-except
-                    functionCall = "Unable to determine learner name"
-            logInfo["learner"] = functionCall
+            logInfo["learner"] = _learnerNameString(learnerFunction)
             # integers or strings passed for Y values, convert if necessary
             if isinstance(trainLabels, (str, int, np.int64)):
                 trainData = trainData.copy()
@@ -674,7 +658,7 @@ class SessionLogger(object):
                     logInfo["validationArgs"][name] = _BaseNameOrType(arg)
                 else:
                     logInfo["validationArgs"][name] = arg
-            logInfo["learnerName"] = validator.learnerName
+            logInfo["learnerName"] = _learnerNameString(validator.learnerName)
             performanceFunction = validator.performanceFunction
             logInfo["metric"] = (performanceFunction.optimal,
                                  performanceFunction.__name__)
@@ -884,6 +868,27 @@ def identifyObject(obj):
 
     return identification
 
+def _learnerNameString(learner):
+    """
+    The name of a learner provided as a string or as an object.
+    """
+    if isinstance(learner, str):
+        return learner
+    # learner object was provided directly
+    try:
+        name = learner.__name__
+        module = learner.__module__.split('.')[0]
+        package = 'custom'
+        for interface in nimble.core.interfaces.available.values():
+            if interface.isAlias(module):
+                package = interface.getCanonicalName()
+        return package + '.' + name
+    # the above should cover all expected cases, but for safety we
+    # will catch any exceptions to prevent a successful operation
+    # from failing here due to a logging issue
+    except Exception: # pylint: disable=broad-except
+        return "Unable to determine learner name"
+
 def identifyReturnedData(returned, logIDs):
     """
     Identify any nimble data or trainedlearner objects returned.
-- 
2.43.0


From 6555d3bcd216148b1013083cf18e87ed2048391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 103/178] fix: the dictionary from settings.get() is not the
 one of the settings

---
 nimble/core/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 3ff8888..7ac3f3c 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -154,7 +154,7 @@ class SessionConfiguration(object):
             # section not in changes or config file
             raise configparser.NoSectionError(section)
 
-        ret = self.changes.copy()
+        ret = {sec: opts.copy() for sec, opts in self.changes.items()}
         for cpSection in self.parser.sections():
             if cpSection not in ret:
                 ret[cpSection] = {}
-- 
2.43.0


From 972a6a9d3c45cc5ad956807a3861e39a77646e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 104/178] fix: setting an option back to the saved value calls
 its hook

---
 nimble/core/configuration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 7ac3f3c..1191434 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -222,6 +222,7 @@ class SessionConfiguration(object):
                 del self.changes[section][option]
                 if len(self.changes[section]) == 0:
                     del self.changes[section]
+                self._callHook(section, option, value)
                 return
         except configparser.NoSectionError:
             pass
@@ -263,6 +264,9 @@ class SessionConfiguration(object):
             self.changes[section] = {}
         self.changes[section][option] = value
 
+        self._callHook(section, option, value)
+
+    def _callHook(self, section, option, value):
         # call hook if available
         key = (section, option)
         if key in self.hooks and self.hooks[key] is not None:
-- 
2.43.0


From 1633953fbea876f68fcb25bf6c90e7b53e6404ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 105/178] fix: options set to values that are not strings can
 be used and saved

---
 nimble/core/configuration.py         | 2 +-
 nimble/core/logger/session_logger.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 1191434..994af9d 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -291,7 +291,7 @@ class SessionConfiguration(object):
         def changeIndividual(changeSec, changeOpt, changeVal):
             if not self.parser.has_section(changeSec):
                 self.parser.add_section(changeSec)
-            self.parser.set(changeSec, changeOpt, changeVal)
+            self.parser.set(changeSec, changeOpt, str(changeVal))
 
 
         if section is None:
diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 6bc5100..6b34fa5 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -776,7 +776,7 @@ def loggingEnabled(useLog):
     """
     if useLog is None:
         useLog = nimble.settings.get("logger", "enabledByDefault")
-        useLog = useLog.lower() == 'true'
+        useLog = str(useLog).lower() == 'true'
     return useLog
 
 def deepLoggingEnabled():
@@ -785,7 +785,7 @@ def deepLoggingEnabled():
     """
     deepLog = nimble.settings.get("logger", "enableDeepLogging")
 
-    return deepLog.lower() == 'true'
+    return str(deepLog).lower() == 'true'
 
 def handleLogging(useLog, logType, *args, **kwargs):
     """
-- 
2.43.0


From 146f086c07763a35e47f22862778fe599791b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 106/178] fix: options can be set to and saved as values that
 contain %

---
 nimble/core/configuration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 994af9d..efa3ca3 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -87,7 +87,8 @@ class SessionConfiguration(object):
         changes to that configuration set and gives the user control
         over which changes should be saved and when.
         """
-        self.parser = configparser.ConfigParser()
+        # values are stored as they are, % has no special meaning
+        self.parser = configparser.ConfigParser(interpolation=None)
         # Needs to be set if you want option names to be case sensitive
         self.parser.optionxform = str
         self.parser.read(path)
-- 
2.43.0


From c271de0a72da78cac9c1182187d52c6f19f0e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 107/178] fix: reading elements of Sparse data after
 transforming some to zero

---
 nimble/core/data/sparse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index d0225f9..1edd3a9 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -214,6 +214,7 @@ class Sparse(Base):
         if all(issubclass(type(d), numbers.Number) for d in self._data.data):
             self._data.data = np.array(list(self._data.data))
         self._data.eliminate_zeros()
+        self._resetSorted()
 
     def _calculate_implementation(self, function, points, features,
                                   preserveZeros):
-- 
2.43.0


From a4202de45f73b31678ae893cf9b4221c050c801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 108/178] fix: slices with a negative step and no start or stop

---
 nimble/core/data/axis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 576a28e..506dbab 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1105,9 +1105,10 @@ class Axis(ABC):
         if isinstance(key, slice):
             if key == slice(None): # full slice
                 return None
-            start = key.start if key.start is not None else 0
-            stop = key.stop if key.stop is not None else length - 1
             step = key.step if key.step is not None else 1
+            first, last = (0, length - 1) if step > 0 else (length - 1, 0)
+            start = key.start if key.start is not None else first
+            stop = key.stop if key.stop is not None else last
 
             start = self._getIndex(start, allowFloats=True)
             stop = self._getIndex(stop, allowFloats=True)
-- 
2.43.0


From f07abc9d78a530151245375109e417b3227f811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 109/178] fix: points and features given as iterators when
 counting or matching elements

---
 nimble/core/data/base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index c909b82..c98a776 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1080,17 +1080,20 @@ class Base(ABC):
 
         wrappedMatch = wrapMatchFunctionFactory(matchArg)
 
+        # points and features could be iterators
+        if points is not None:
+            points = constructIndicesList(self, 'point', points)
+        if features is not None:
+            features = constructIndicesList(self, 'feature', features)
         ret = self._calculate_backend(wrappedMatch, points, features,
                                       allowBoolOutput=True)
 
         pnames = self.points._getNamesNoGeneration()
         if pnames is not None and points is not None:
-            ptIdx = constructIndicesList(self, 'point', points)
-            pnames = [pnames[i] for i in ptIdx]
+            pnames = [pnames[i] for i in points]
         fnames = self.features._getNamesNoGeneration()
         if fnames is not None and features is not None:
-            ftIdx = constructIndicesList(self, 'feature', features)
-            fnames = [fnames[j] for j in ftIdx]
+            fnames = [fnames[j] for j in features]
         ret.points.setNames(pnames, useLog=False)
         ret.features.setNames(fnames, useLog=False)
 
@@ -1253,6 +1256,11 @@ class Base(ABC):
         --------
         counts, tally, distinct, different, different
         """
+        if points is not None:
+            points = constructIndicesList(self, 'point', points)
+        if features is not None:
+            features = constructIndicesList(self, 'feature', features)
+
         return self._countUnique_implementation(points, features)
 
     @limitedTo2D
-- 
2.43.0


From 6164d9acd237b5199d80448f5ace160cd1b6b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:28 +0000
Subject: [PATCH 110/178] fix: Sparse data with elements transformed to numpy
 booleans

---
 nimble/core/data/sparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 1edd3a9..480845f 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -211,7 +211,8 @@ class Sparse(Base):
             self._data.data = modifyNumpyArrayValue(self._data.data, index,
                                                     currRet)
 
-        if all(issubclass(type(d), numbers.Number) for d in self._data.data):
+        if all(isinstance(d, (numbers.Number, np.bool_))
+               for d in self._data.data):
             self._data.data = np.array(list(self._data.data))
         self._data.eliminate_zeros()
         self._resetSorted()
-- 
2.43.0


From 19d1a5998742538b0b5458317c15f48a92b65125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 111/178] fix: printing a range that extends beyond the axis

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index c98a776..6a8dfc6 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2734,8 +2734,9 @@ class Base(ABC):
         if target.step != 1:
             msg = "range inputs for printing must have a step of 1, not "
             msg += f"{target.step}"
+            raise InvalidArgumentValue(msg)
 
-        desired = (target.start, target.stop)
+        desired = [target.start, target.stop]
         if desired[0] < 0:
             desired[0] = 0
         if desired[1] > axisLength:
-- 
2.43.0


From eeb86e57ad21590c8259da2b67adcbad712208e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 112/178] fix: printing a number of features works inwards from
 the first and last

---
 nimble/core/data/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 6a8dfc6..bc5802b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5834,8 +5834,10 @@ class Base(ABC):
                 fOffset = features[0]
             else:
                 fOffset = 0
+            maxFts = numFts
         else:
-            numFts = features
+            numFts = len(self.features)
+            maxFts = features
             fOffset = 0
 
         #setup a bundle of default values
@@ -5892,7 +5894,8 @@ class Base(ABC):
         else:
             fnames = self.features.getNames()
 
-        while totalWidth < maxWidth and currIndex != endIndex:
+        while (totalWidth < maxWidth and currIndex != endIndex
+               and numAdded < maxFts):
             currTable = lTable if currIndex >= 0 else rTable
             currCol = []
 
-- 
2.43.0


From aafbcc41ac575c1126bf675b58a34b4f8b3e8958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 113/178] fix: printing a single point or a range of points
 that is empty

---
 nimble/core/data/_dataHelpers.py | 2 +-
 nimble/core/data/base.py         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 19b3891..f3d6a05 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -172,7 +172,7 @@ def indicesSplit(numAllow, iRange):
         numAllow -= 1
 
     if numAllow == 1 or total == 1:
-        return ([0], [])
+        return ([iRange.start], [])
 
     forward = int(math.ceil(numAllow / 2.0))
     backward = int(math.floor(numAllow / 2.0))
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index bc5802b..b19e46a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5752,7 +5752,7 @@ class Base(ABC):
         and process them for length. Returns a list of prepared names
         and an int bounding the length of each name representation.
         """
-        if len(self.points) == 0:
+        if len(pRange) == 0:
             return [], 0
 
         names = []
@@ -5816,7 +5816,7 @@ class Base(ABC):
         third returned value is a list of feature names matching the columns
         represented in the first return value.
         """
-        if maxHeight < 2 and maxHeight != len(self.points):
+        if maxHeight < 2 and maxHeight != len(pRange):
             msg = "If the number of points in this object is two or greater, "
             msg += "then we require that the input argument maxHeight also "
             msg += "be greater than or equal to two."
-- 
2.43.0


From 8aee56977591c7abbae5ac37e65f6e3d14efccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:19 +0000
Subject: [PATCH 114/178] fix: the lineWidthLimit and points of show are used

---
 nimble/core/data/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index b19e46a..6eb0feb 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2775,13 +2775,16 @@ class Base(ABC):
         else:
             terminalSize = shutil.get_terminal_size()
 
-        if features is None and lineWidthLimit == 'automatic':
-            lineWidthLimit = max(79, terminalSize[0] - 1)
-        else:
+        if features is not None:
             lineWidthLimit = None
+        elif lineWidthLimit == 'automatic':
+            lineWidthLimit = max(79, terminalSize[0] - 1)
 
         if lineLimit == 'automatic':
-            lineLimit = max(30, terminalSize[1] - 1)
+            if points is not None:
+                lineLimit = None
+            else:
+                lineLimit = max(30, terminalSize[1] - 1)
         if lineLimit is not None:
             # subtract lines for data details and last line
             lineLimit -= 2
-- 
2.43.0


From 661114212a1a42006ea5ae4ed298c78a7f74ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 115/178] fix: printing a number of points that is not possible

---
 nimble/core/data/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 6eb0feb..f005009 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2646,6 +2646,10 @@ class Base(ABC):
                 msg = 'The minimum lineLimit for this data is '
                 msg += str(2 + min(numPoints, 2))
                 raise InvalidArgumentValue(msg)
+        if maxDataRows <= 1 and len(pRange) > maxDataRows:
+            msg = 'At least two lines of points are required to print a part '
+            msg += 'of the points in this data'
+            raise InvalidArgumentValue(msg)
 
         if lineWidthLimit is None:
             lineWidthLimit = float('inf')
-- 
2.43.0


From 11480bc35ea99b33f329b2ffc05657df5739a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 116/178] fix: printing an object without points or features

---
 nimble/core/data/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f005009..93fc9bc 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2803,8 +2803,8 @@ class Base(ABC):
             if isinstance(lineWidthLimit, int):
                 # If we just have point indices can know how much space they'll take up
                 if not self.points.names or len(self.points.names) == None:
-                    pNamesEst = math.ceil(math.log(len(self.points), 10))
-                    columnWidthLimit = ((lineWidthLimit-pNamesEst) // len(self.features)) + 7
+                    pNamesEst = math.ceil(math.log(max(1, len(self.points)), 10))
+                    columnWidthLimit = ((lineWidthLimit-pNamesEst) // max(1, len(self.features))) + 7
                 # For assigned names, we just let it take up another column's worth
                 else:
                     columnWidthLimit = (lineWidthLimit // (len(self.features)+1)) + 7
-- 
2.43.0


From 4138533ca1b7a5be40568a71948e70555b47ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 117/178] fix: printing a single feature that needs all of the
 width

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 93fc9bc..eb19763 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5875,7 +5875,7 @@ class Base(ABC):
         lFNames, rFNames = [], []
         # total width will always include the column placeholder column,
         # until it is shown that it isn't needed
-        totalWidth = cHoldTotal
+        totalWidth = cHoldTotal if numFts > 1 else 0
 
         # going to add indices from the beginning and end of the data until
         # we've used up our available space, or we've gone through all of
-- 
2.43.0


From 100280db72cbf39d2b5ea07019b14d4f0743eed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 118/178] fix: names of calculate for all points or features in
 another order

---
 nimble/core/data/axis.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 506dbab..c055b47 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -598,13 +598,11 @@ class Axis(ABC):
             axisNameSetter = ret.features.setNames
             offAxisNameSetter = ret.points.setNames
 
-        if len(limitTo) < len(self) and self._namesCreated():
+        if self._namesCreated():
             names = []
             for index in limitTo:
                 names.append(self._getName(index))
             axisNameSetter(names, useLog=False)
-        elif self._namesCreated():
-            axisNameSetter(self._getNames(), useLog=False)
         if offAxisNames is not None:
             offAxisNameSetter(offAxisNames, useLog=False)
 
-- 
2.43.0


From 203f300a667f14d37fc440d3e33bd7c2acc0df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 119/178] fix: matching points or features of one value with a
 query string

---
 nimble/core/data/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index c055b47..281ebd4 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -557,6 +557,8 @@ class Axis(ABC):
         return ret
 
     def _matching(self, function):
+        if isinstance(function, str):
+            function = self._axisQueryFunction(function)
         wrappedMatch = wrapMatchFunctionFactory(function, elementwise=False)
 
         ret = self._calculate_backend(wrappedMatch, None)
-- 
2.43.0


From 7f5965264b9feea2d79baae0d837109962487193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:49 +0000
Subject: [PATCH 120/178] fix: truth of a view made with a numpy integer

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index eb19763..e8dcd80 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -470,7 +470,7 @@ class Base(ABC):
         raise ImproperObjectAction(msg)
 
     def __bool__(self):
-        return self._dims[0] > 0 and self._dims[-1] > 0
+        return bool(self._dims[0] > 0 and self._dims[-1] > 0)
 
     @limitedTo2D
     def iterateElements(self, order='point', only=None):
-- 
2.43.0


From f691c19e2527b23f8a6b8ecf655f1c0455c5c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 121/178] fix: replacing several points or features of an
 object with one of the other

---
 nimble/core/data/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 281ebd4..36d0db0 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -699,7 +699,8 @@ class Axis(ABC):
                 fnames.append(dataKwds.pop('featureNames'))
             dataObj = nimble.data(**dataKwds)
             ax, offAx = (1, 0) if self._isPoint else (0, 1)
-            if dataObj.shape[ax] == 1 and dataObj.shape[offAx] > 1:
+            if (dataObj.shape[ax] == 1 and dataObj.shape[offAx] > 1
+                    and self._base.shape[ax] != 1):
                 # transpose if 1D and not expected vector shape
                 dataObj.transpose(useLog=False)
             if pnames:
-- 
2.43.0


From 3694c0b9a76cc8b618c4168dc177d27c7d61a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 122/178] fix: names given for replacement data are not
 extracted from it as well

---
 nimble/core/data/axis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 36d0db0..1517bb4 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -693,10 +693,12 @@ class Axis(ABC):
             # need to delay name setting in case the data requires a transpose
             pnames = []
             fnames = []
-            if 'pointNames' in dataKwds:
-                pnames.append(dataKwds.pop('pointNames'))
-            if 'featureNames' in dataKwds:
-                fnames.append(dataKwds.pop('featureNames'))
+            for key, names in [('pointNames', pnames),
+                               ('featureNames', fnames)]:
+                if (key in dataKwds and not isinstance(dataKwds[key],
+                                                       (bool, str))):
+                    names.append(dataKwds[key])
+                    dataKwds[key] = False
             dataObj = nimble.data(**dataKwds)
             ax, offAx = (1, 0) if self._isPoint else (0, 1)
             if (dataObj.shape[ax] == 1 and dataObj.shape[offAx] > 1
-- 
2.43.0


From e0d545c59143781050f9f0edf1c500e1c4a94dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 123/178] fix: fetching compressed tar files

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index c8d821c..0039775 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1831,7 +1831,7 @@ def _processArchiveFile(filename, extract):
         archiveObj = zipfile.ZipFile
         nameGetter = 'namelist'
     else:
-        archiveObj = tarfile.TarFile
+        archiveObj = tarfile.open # includes compressed tar files
         nameGetter = 'getnames'
     with archiveObj(filename, 'r') as fileObj:
         names = getattr(fileObj, nameGetter)()
-- 
2.43.0


From ab85146840d2581049e929a5a370d167fbc6cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 124/178] fix: fetched tar files with links that lead out of
 the directory

---
 nimble/core/_createHelpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 0039775..fb3817e 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1838,6 +1838,9 @@ def _processArchiveFile(filename, extract):
         if any(os.path.isabs(name) or '..' in name for name in names):
             # potential security risk will not perform extraction
             return [filename]
+        if hasattr(tarfile, 'data_filter'):
+            # links could also lead out of the directory
+            fileObj.extraction_filter = tarfile.data_filter
 
         location = os.path.dirname(filename)
         paths = [os.path.join(location, name) for name in names]
-- 
2.43.0


From 783a219771edb513548d34a9e4940fb96052a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 125/178] fix: fetched gzip files without the extension are not
 emptied

---
 nimble/core/_createHelpers.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index fb3817e..375a5b0 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1859,14 +1859,16 @@ def _processCompressedFile(filename):
     """
     Decompress a gzip file.
     """
+    if filename.endswith('.gz'):
+        unzipped = filename[:-3]
+    else:
+        unzipped = filename
+    temporary = unzipped + '.part'
     with gzip.open(filename, 'rb') as fIn:
-        if filename.endswith('.gz'):
-            unzipped = filename[:-3]
-        else:
-            unzipped = filename
-        with open(unzipped, 'wb') as fOut:
+        with open(temporary, 'wb') as fOut:
             shutil.copyfileobj(fIn, fOut)
-        return [unzipped]
+    os.replace(temporary, unzipped)
+    return [unzipped]
 
 def _processUCISource(source):
     """
-- 
2.43.0


From 5f79a25a3585cca3d04d1aaee2858692d70c937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 126/178] fix: an archive just downloaded is always extracted

---
 nimble/core/_createHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 375a5b0..2a3c525 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2028,7 +2028,8 @@ class _DirectURLManager:
 
         try:
             if _isArchive(self.path):
-                return _processArchiveFile(self.path, overwrite)
+                # members from another archive could be in this directory
+                return _processArchiveFile(self.path, True)
             if _isGZip(self.path):
                 return _processCompressedFile(self.path)
         except Exception: # pylint: disable=broad-except
-- 
2.43.0


From 4077402e5879504c976429560b509773973df67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 127/178] fix: fetching a file again that could not be
 extracted

---
 nimble/core/_createHelpers.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 2a3c525..0d5cdce 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1989,23 +1989,29 @@ class _DirectURLManager:
                 # need to use _IndirectURLManager
                 msg = 'source does not provide downloadable data'
                 raise InvalidArgumentValue(msg)
-            if _isArchive(self.path):
-                self.local = _processArchiveFile(self.path, False)
-            else:
-                isGZip = _isGZip(self.path)
-                if isGZip and os.path.exists(self.path[:-3]):
-                    # already decompressed gzip file
-                    self.local = [self.path[:-3]]
-                elif isGZip:
-                    self.local = _processCompressedFile(self.path)
-                else:
-                    self.local = [self.path]
+            try:
+                self.local = self._getLocal()
+            except Exception: # pylint: disable=broad-except
+                self.local = [self.path] # the archive file as in fetch
         else:
             self.local = None
         if self.local is None and not _isDownloadable(self.source):
             msg = 'source does not provide downloadable data'
             raise InvalidArgumentValue(msg)
 
+    def _getLocal(self):
+        """
+        The paths for a file that has been downloaded before.
+        """
+        if _isArchive(self.path):
+            return _processArchiveFile(self.path, False)
+        if _isGZip(self.path):
+            if self.path.endswith('.gz') and os.path.exists(self.path[:-3]):
+                # already decompressed gzip file
+                return [self.path[:-3]]
+            return _processCompressedFile(self.path)
+        return [self.path]
+
     def fetch(self, overwrite=True):
         """
         Get from local storage or download.
-- 
2.43.0


From 0645ab2469f1947b102bfaf0756df86568a2e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 128/178] fix: urls that differ in the query are stored in
 different files

---
 nimble/core/_createHelpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 0d5cdce..aa00cf6 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1956,6 +1956,9 @@ def _getNimbleDataPath(source):
     if netLoc.startswith('www.'):
         netLoc = netLoc[4:]
     directory = os.path.join(*urlInfo.path.split('/'))
+    if urlInfo.query:
+        # other queries provide other data
+        directory += '_' + urllib.parse.quote_plus(urlInfo.query)
     localPath = os.path.join(homepath, netLoc, directory)
 
     return localPath
-- 
2.43.0


From 2dbe18206e3bee9abea3faffc23f32f7484f4def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:20 +0000
Subject: [PATCH 129/178] fix: fetched files are stored below the directory of
 the domain

---
 nimble/core/_createHelpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index aa00cf6..8c9f137 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -26,6 +26,7 @@ import csv
 from io import StringIO, BytesIO
 import os
 import copy
+import posixpath
 import warnings
 import datetime
 import re
@@ -1955,7 +1956,9 @@ def _getNimbleDataPath(source):
     netLoc = urlInfo.netloc
     if netLoc.startswith('www.'):
         netLoc = netLoc[4:]
-    directory = os.path.join(*urlInfo.path.split('/'))
+    # as in the request, the path does not lead above the domain
+    path = posixpath.normpath('/' + urlInfo.path)
+    directory = os.path.join(*path.split('/'))
     if urlInfo.query:
         # other queries provide other data
         directory += '_' + urllib.parse.quote_plus(urlInfo.query)
-- 
2.43.0


From 0bbef2b5b1d7db0dfd7257ba1afe83163f4801f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 130/178] fix: files left by an extraction that failed are not
 used

---
 nimble/core/_createHelpers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 8c9f137..3e03cb2 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1847,7 +1847,14 @@ def _processArchiveFile(filename, extract):
         paths = [os.path.join(location, name) for name in names]
         # only need to extract if overwrite or any expected files don't exist
         if extract or not all(os.path.exists(path) for path in paths):
-            fileObj.extractall(location)
+            try:
+                fileObj.extractall(location)
+            except Exception:
+                # incomplete files must not pass for the extracted files
+                for path in paths:
+                    if os.path.isfile(path):
+                        os.remove(path)
+                raise
 
         files = []
         for path in paths:
-- 
2.43.0


From 8635deb1eac54c708f8faa69978e4bd118660292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 131/178] fix: loading data from a compressed tar file

---
 nimble/core/_createHelpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 3e03cb2..bbf7141 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2284,7 +2284,8 @@ def createDataFromFile(
     with BytesIO(content) as toCheck:
         if _isGZip(toCheck):
             content = _decompressGZip(toCheck).read()
-        elif _isArchive(toCheck):
+    with BytesIO(content) as toCheck:
+        if _isArchive(toCheck):
             content = _extractFromArchive(toCheck, dataFilter).read()
 
     with BytesIO(content) as toCheck:
-- 
2.43.0


From 50e80a19057ce72e7ac4cd5ae382f465943e076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:16 +0000
Subject: [PATCH 132/178] fix: percentile of the second object for repeated
 extreme values

---
 nimble/calculate/normalize.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nimble/calculate/normalize.py b/nimble/calculate/normalize.py
index f93f3ec..95c7461 100644
--- a/nimble/calculate/normalize.py
+++ b/nimble/calculate/normalize.py
@@ -277,17 +277,15 @@ def percentileNormalize(values1, values2=None):
 def _interpPercentile(minimum, maximum, sortedValues, sortedPercentiles, val):
     if np.isnan(val):
         return val
-    if val == minimum == maximum:
-        return 0.5 # all values were equal
-    if val <= minimum:
+    if val < minimum:
         return 0.0
-    if val >= maximum:
+    if val > maximum:
         return 1.0
     idx = np.searchsorted(sortedValues, val) # binary search
+    if val == sortedValues[idx]:
+        return float(sortedPercentiles[idx])
     leftVal, rightVal = sortedValues[idx - 1:idx + 1]
     leftPerc, rightPerc = sortedPercentiles[idx - 1:idx + 1]
-    if val == rightVal:
-        return rightPerc
     fractionToNext = (val - leftVal) / (rightVal - leftVal)
     percDist = rightPerc - leftPerc
     return float(leftPerc + percDist * fractionToNext)
-- 
2.43.0


From ed9bc6647fb44a3bb7be3e3cfbab834e9018cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:44 +0000
Subject: [PATCH 133/178] fix: Tuning used again with another performance
 function

---
 nimble/core/learn.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index fdad334..faf67c2 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -1026,12 +1026,20 @@ def _trainAndTestBackend(performanceFunction, learnerName, trainX, trainY,
             tuning = Tuning(performanceFunction=performanceFunction)
         elif not isinstance(tuning, Tuning):
             tuning = Tuning(performanceFunction=tuning)
-        elif tuning.performanceFunction is None:
-            tuning.performanceFunction=performanceFunction
 
-    trainedLearner = train(learnerName, trainX, trainY, merged,
-                           multiClassStrategy=multiClassStrategy,
-                           randomSeed=randomSeed, tuning=tuning, useLog=useLog)
+    addFunction = (isinstance(tuning, Tuning)
+                   and tuning.performanceFunction is None)
+    if addFunction:
+        tuning.performanceFunction = performanceFunction
+    try:
+        trainedLearner = train(learnerName, trainX, trainY, merged,
+                               multiClassStrategy=multiClassStrategy,
+                               randomSeed=randomSeed, tuning=tuning,
+                               useLog=useLog)
+    finally:
+        # the function of this call does not apply when using tuning again
+        if addFunction:
+            tuning.performanceFunction = None
 
     if testX is None:
         testX = trainX
-- 
2.43.0


From 9d71fd7b4fa763d5a4e577829349ef9f32e98b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:28 +0000
Subject: [PATCH 134/178] fix: combineByExpandingFeatures with missing values
 in the other features

---
 nimble/core/data/points.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index c6d5706..20b04ab 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -30,6 +30,8 @@ of function calls for the logger takes place in here.
 from abc import ABC, abstractmethod
 from collections import OrderedDict
 
+import numpy as np
+
 import nimble
 from nimble.exceptions import ImproperObjectAction, InvalidArgumentValue
 from ._dataHelpers import limitedTo2D, prepLog
@@ -2151,12 +2153,16 @@ class Points(ABC):
         pNames = []
         uniqueNames = []
         for idx, row in enumerate(iter(self)):
-            uncombined = tuple(row[uncombinedIdx])
+            # every missing value is equal
+            uncombined = tuple(np.nan if val != val else val
+                               for val in row[uncombinedIdx])
             if uncombined not in unique:
                 unique[uncombined] = {}
                 if self._base.points._namesCreated():
                     pNames.append(self.getName(idx))
             nameIdxVal = row[namesIdx]
+            if nameIdxVal != nameIdxVal:
+                nameIdxVal = np.nan
             if nameIdxVal in unique[uncombined]:
                 msg = f"The point at index {idx} cannot be combined because "
                 msg += "there is already a value for the feature "
@@ -2166,7 +2172,7 @@ class Points(ABC):
             if nameIdxVal not in uniqueNames:
                 uniqueNames.append(nameIdxVal)
 
-            unique[uncombined][row[namesIdx]] = row[valuesIdx]
+            unique[uncombined][nameIdxVal] = row[valuesIdx]
 
         numExpanded = len(featuresWithValues)
         numRetFeatures = (len(self._base.features)
-- 
2.43.0


From a9849dbe5c96c0077bcfb005f1dd4a64a6e58c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:12 +0000
Subject: [PATCH 135/178] fix: sort by an identifier with missing values

---
 nimble/core/data/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 1517bb4..87a83ee 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1323,7 +1323,9 @@ class Axis(ABC):
                 data = list(self._base.features[idx])
             else:
                 data = list(self._base.points[idx])
-            order.sort(key=data.__getitem__, reverse=reverse)
+            # missing values cannot be compared, they follow all other values
+            keys = [(True, 0) if val != val else (False, val) for val in data]
+            order.sort(key=keys.__getitem__, reverse=reverse)
         self._permute(order)
 
     def _sortByFunction(self, func, reverse):
-- 
2.43.0


From 5b0e304be2110f9b131e45326e747831877c0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:33 +0000
Subject: [PATCH 136/178] fix: merge onFeature with missing values in the
 feature

---
 nimble/core/data/base.py      | 12 +++++++++---
 nimble/core/data/dataframe.py | 17 ++++++++++++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index e8dcd80..45fc91e 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4675,7 +4675,10 @@ class Base(ABC):
                     msg = "when point='strict', onFeature must contain only "
                     msg += "unique values"
                     raise InvalidArgumentValueCombination(msg)
-                if sorted(feat) != sorted(tmpOther[:, onFeature]):
+                otherFeat = tmpOther[:, onFeature]
+                if (any(val != val for val in feat)
+                        or any(val != val for val in otherFeat)
+                        or sorted(feat) != sorted(otherFeat)):
                     msg = "When point='strict', onFeature must have a unique, "
                     msg += "matching value in each object"
                     raise InvalidArgumentValueCombination(msg)
@@ -4760,8 +4763,11 @@ class Base(ABC):
                     raise InvalidArgumentValue(msg)
                 onFeature = ftName
             try:
-                uniqueFtL = len(set(self[:, onFeature])) == len(self.points)
-                uniqueFtR = len(set(other[:, onFeature])) == len(other.points)
+                # missing values do not match any value
+                keysL = [key for key in self[:, onFeature] if key == key]
+                keysR = [key for key in other[:, onFeature] if key == key]
+                uniqueFtL = len(set(keysL)) == len(keysL)
+                uniqueFtR = len(set(keysR)) == len(keysR)
                 if not (uniqueFtL or uniqueFtR):
                     msg = "nimble only supports joining on a feature which "
                     msg += "contains only unique values in one or both objects"
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index b18a5df..2ef1b05 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -406,7 +406,22 @@ class DataFrame(Base):
         else:
             onIdxL = self._data.columns.get_loc(onFeature)
             onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
-            self._data = self._data.merge(tmpDfR, how=point, on=onFeature)
+            if self._data[onFeature].dtype != tmpDfR[onFeature].dtype:
+                # pandas cannot merge objects with other types
+                if object in (self._data[onFeature].dtype,
+                              tmpDfR[onFeature].dtype):
+                    self._data = self._data.astype({onFeature: object})
+                    tmpDfR = tmpDfR.astype({onFeature: object})
+            # missing values do not match any value, but pandas matches them
+            missingR = tmpDfR[onFeature].isnull()
+            tmpMissing = tmpDfR[missingR]
+            merged = self._data.merge(tmpDfR[~missingR], how=point,
+                                      on=onFeature)
+            if point == 'outer' and len(tmpMissing):
+                tmpMissing = self._data.iloc[:0].merge(
+                    tmpMissing, how=point, on=onFeature)
+                merged = pd.concat([merged, tmpMissing])
+            self._data = merged
 
         # return labels to default after we've executed the merge
         self._data.index = pd.RangeIndex(self._data.shape[0])
-- 
2.43.0


From a7214b79da36a5063f98e52cc5d371e86e9dfbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:23 +0000
Subject: [PATCH 137/178] fix: repeated values in a csv column that could hold
 point names

---
 nimble/core/_createHelpers.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index bbf7141..78e2c2a 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2527,13 +2527,16 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
     pointNames, featureNames = autoDetectNamesFromRaw(
         pointNames, featureNames, firstDataRow, secondDataRow)
 
-    # possible pointNames if first was missing and rest could be featureNames
-    trackPoints = possiblePtNames and detectPtNames and featureNames
+    # possible pointNames if first was missing and rest could be featureNames,
+    # but only if the values for every point are unique
+    if possiblePtNames and detectPtNames and featureNames:
+        names = [secondRow[0]] + [row[0] for row in rowReader if row]
+        pointNames = len(set(names)) == len(names)
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
 
-    return pointNames, featureNames, trackPoints
+    return pointNames, featureNames
 
 
 def _advancePastComments(ioStream):
@@ -2908,7 +2911,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         function call.
     """
     dialect = _detectDialectFromSeparator(ioStream, inputSeparator)
-    pointNames, featureNames, trackPoints = _checkCSVForNames(
+    pointNames, featureNames = _checkCSVForNames(
         ioStream, pointNames, featureNames, dialect)
 
     pointNames = _namesDictToList(pointNames, 'point', 'pointNames')
@@ -2924,7 +2927,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     firstRowLength = None
     if featureNames is True:
         retFNames = [v if v else None for v in next(lineReader)]
-        if pointNames is True or trackPoints:
+        if pointNames is True:
             retFNames = retFNames[1:]
         firstRowLength = len(retFNames)
         lengthDefiningLine = skippedLines
@@ -2973,31 +2976,17 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     convertCols = None
     nonNumericFeatures = set()
     allEmptyFeatures = set()
-    possiblePtNames = set()
     allEndEmpty = True # every row, including those not kept, ends with ''
     # lineReader is now at the first line of data
     for i, row in enumerate(lineReader):
         allEndEmpty = allEndEmpty and row[-1:] == ['']
-        if pointNames is True or trackPoints:
+        if pointNames is True:
             ptName = row[0]
             row = row[1:]
         elif pointNames and len(pointNames) > len(keepPoints):
             ptName = pointNames[i]
         else:
             ptName = None
-        if trackPoints:
-            if ptName in possiblePtNames:
-                # duplicate value, need to add possible names back in as data
-                for idx, name in enumerate(extractedPointNames):
-                    if retData[idx] is not None:
-                        retData[idx].insert(0, name)
-                row.insert(0, ptName)
-                retFNames.insert(0, None)
-                firstRowLength += 1
-                trackPoints = False
-                pointNames = False
-            else:
-                possiblePtNames.add(ptName)
         if not keepFeaturesValidated:
             if any(val >= len(row) for val in keepFeatures):
                 for val in keepFeatures:
@@ -3050,7 +3039,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
 
             if keepPoints == 'all':
                 retData.append(row)
-                if pointNames is True or trackPoints:
+                if pointNames is True:
                     extractedPointNames.append(ptName)
             else:
                 if ptName is not None and ptName in keepPoints:
@@ -3062,7 +3051,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
                 location = keepPoints.index(locate)
                 locatedPoints.append(locate)
                 retData[location] = row
-                if pointNames is True or trackPoints:
+                if pointNames is True:
                     extractedPointNames[location] = ptName
 
         totalPoints = i + 1
@@ -3071,8 +3060,6 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         for idx in allEmptyFeatures:
             convertCols[idx] = float
             nonNumericFeatures.remove(idx)
-    if trackPoints:
-        pointNames = trackPoints
     if (keepPoints != 'all' and pointNames
             and pointNames is not True
             and len(retData) == totalPoints == len(keepPoints)):
-- 
2.43.0


From b6f6a1971855186a4bb37882763a1061e323be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:32 +0000
Subject: [PATCH 138/178] fix: proportions of an object with text are not
 rounded

---
 nimble/core/data/base.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 45fc91e..3580ffb 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -6283,10 +6283,6 @@ class Base(ABC):
         >>> X.proportionMissing()
         0.5
         """
-        if not isNumeric(self):
-            calcListByFeature = list(self.features.proportionMissing())
-            propMissing = sum(calcListByFeature)/len(self.features)
-            return round(propMissing, 3)
         return nimble.calculate.proportionMissing(self._vectorize())
 
     def proportionZero(self):
@@ -6301,10 +6297,6 @@ class Base(ABC):
         >>> X.proportionZero()
         0.5
         """
-        if not isNumeric(self):
-            calcListByFeature = list(self.features.proportionZero())
-            propZero = sum(calcListByFeature)/len(self.features)
-            return round(propZero, 3)
         return nimble.calculate.proportionZero(self._vectorize())
     
     def mode(self):
-- 
2.43.0


From 75062d995f48d7ad641be1dca0cd7962a854dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 139/178] fix: statistics of an object with numbers held as
 objects

---
 nimble/core/data/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 3580ffb..ea37e76 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -105,10 +105,10 @@ def checkNumericListType(listData):
     if isinstance(listData, list):
       for item in listData:
         if isinstance(item, list):
-            if not all(isinstance(sub_item, (int, float)) for sub_item in item):
+            if not all(isinstance(sub_item, numbers.Number) for sub_item in item):
                 return False
         else:
-            if not isinstance(item, (int, float)):
+            if not isinstance(item, numbers.Number):
                 return False
       return True
     return False
@@ -119,11 +119,17 @@ def isNumeric(base):
     values.
     '''
     def is_numeric_column(column):
+        # objects can all be numbers, if part of data that also had text
+        if column.dtype == np.object_:
+            return checkNumericListType(column.tolist())
         return pd.api.types.is_numeric_dtype(column)
 
     if pd.nimbleAccessible() and isinstance(base._data, pd.DataFrame):
-        return all(is_numeric_column(column) for column in base._data.dtypes)
+        return all(is_numeric_column(column)
+                   for _, column in base._data.items())
     elif isinstance(base._data, np.ndarray):
+        if base._data.dtype == np.object_:
+            return checkNumericListType(base._data.tolist())
         return np.issubdtype(base._data.dtype, np.number)
     elif isinstance(base._data, coo_matrix):
         return base._data.dtype.kind in 'ifc'
-- 
2.43.0


From febfccf30fcd1aa58321bf6151621b7d5be04f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 140/178] fix: uniqueCount of an object with text

---
 nimble/core/data/base.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ea37e76..adf3c28 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -6273,8 +6273,6 @@ class Base(ABC):
         >>> X.uniqueCount()
         5
         """
-        if not isNumeric(self):
-            return(np.nan) 
         return nimble.calculate.uniqueCount(self._vectorize())
 
     def proportionMissing(self):
-- 
2.43.0


From 6484577cda8ecee163b8dbdfd365aaa3dd44b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:32 +0000
Subject: [PATCH 141/178] fix: zeros made while creating a Sparse object are
 not stored

---
 nimble/core/_createHelpers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 78e2c2a..9b54b1a 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1747,6 +1747,17 @@ def initDataObject(
     if convertToType is not None:
         ret._data = elementTypeConvert(ret._data, convertToType)
 
+    # replacing and converting values can make zeros, those are not stored
+    if returnType == 'Sparse' and not skipDataProcessing:
+        stored = np.array([val != 0 for val in ret._data.data], dtype=bool)
+        # not in place since the data could be shared with the source
+        if not stored.all():
+            ret._data = scipy.sparse.coo_matrix(
+                (ret._data.data[stored],
+                 (ret._data.row[stored], ret._data.col[stored])),
+                shape=ret._data.shape)
+            ret._resetSorted()
+
     return ret
 
 def _autoFileTypeChecker(ioStream):
-- 
2.43.0


From 95d8cb28539686107b13202152c0bd9d3090868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 142/178] fix: plot of features given by index when grouped

---
 nimble/core/data/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index adf3c28..e20f4a4 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3300,7 +3300,14 @@ class Base(ABC):
                 outPath, show, figureID, title, xAxisLabel, yAxisLabel, xMin,
                 xMax, yMin, yMax, **kwargs)
         else:
-            grouped = self.groupByFeature(groupByFeature, useLog=False)
+            # groups are without the feature grouped by, so to have x and y
+            # still identify the same features, group by a copy of it instead
+            toGroup = self.copy()
+            groupFt = self.features.copy(groupByFeature, useLog=False)
+            groupFt.features.setNames(None, oldIdentifiers=0, useLog=False)
+            toGroup.features.append(groupFt, useLog=False)
+            grouped = toGroup.groupByFeature(len(self.features), useLog=False)
+            x, y = self.features.getIndex(x), self.features.getIndex(y)
             labels = list(grouped.keys())
             lastLabel = labels[-1]
             if 'color' in kwargs:
-- 
2.43.0


From 7e50519f1b3673091baafaf6821cfdccf88a9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 143/178] fix: plot of a rolling average of single samples

---
 nimble/core/data/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index e20f4a4..d40ede8 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3384,8 +3384,9 @@ class Base(ABC):
             convShape = (np.ones(sampleSizeForAverage)
                          / float(sampleSizeForAverage))
             startIdx = sampleSizeForAverage-1
-            xToPlot = np.convolve(xToPlot, convShape)[startIdx:-startIdx]
-            yToPlot = np.convolve(yToPlot, convShape)[startIdx:-startIdx]
+            endIdx = len(xToPlot)
+            xToPlot = np.convolve(xToPlot, convShape)[startIdx:endIdx]
+            yToPlot = np.convolve(yToPlot, convShape)[startIdx:endIdx]
 
             tmpStr = f' ({sampleSizeForAverage} sample average)'
             xlabel += tmpStr
-- 
2.43.0


From 1eea99bd56a029a94b60b87f0f20eb89cf7bc9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 144/178] fix: plotHeatMap changed the values of the object

---
 nimble/core/data/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index d40ede8..ebd9c9d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2966,13 +2966,15 @@ class Base(ABC):
     @pyplotRequired
     def _plot(self, includeColorbar, outPath, show, title, xAxisLabel,
               yAxisLabel, **kwargs):
-        self._convertToNumericTypes(allowBool=False)
+        # the values in this object must not be converted
+        toPlot = self.copy()
+        toPlot._convertToNumericTypes(allowBool=False)
 
         if 'cmap' not in kwargs:
             kwargs['cmap'] = "gray"
 
         # matshow generates a new figure b/c existing axes are an issue.
-        plt.matshow(self.copy('numpyarray'), **kwargs)
+        plt.matshow(toPlot.copy('numpyarray'), **kwargs)
 
         if includeColorbar:
             plt.colorbar()
-- 
2.43.0


From 99728d99d543e11187f5052f420b864ce33867cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 145/178] fix: plots of groups that are numbers

---
 nimble/core/data/_dataHelpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index f3d6a05..f681695 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1134,6 +1134,7 @@ def plotXTickLabels(ax, fig, names, numTicks):
     """
     Helper for setting and orienting the labels for x ticks.
     """
+    names = [str(name) for name in names]
     xtickMax = max(len(name) for name in names)
     # 1 unit of figwidth can contain 9 characters
     tickWidth = int(fig.get_figwidth() / numTicks * 9)
-- 
2.43.0


From 592b6ae24601bfe931c8f60e8b6ba05a73bec207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 146/178] fix: bars of a single subgroup were drawn over each
 other

---
 nimble/core/data/_dataHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index f681695..6c7757b 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1205,7 +1205,7 @@ def plotMultiBarChart(ax, heights, horizontal, legendTitle, **kwargs):
     start = 1 - (width / 2) + (singleWidth / 2)
 
     for i, (name, height) in enumerate(heights.items()):
-        widths = np.arange(start, len(height))
+        widths = np.arange(len(height)) + start
         widths += i * singleWidth
         if horizontal:
             ax.barh(widths, height, height=singleWidth, label=name,
-- 
2.43.0


From d0651ccfbf9508603cf5fbcdb15e70797182047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:15 +0000
Subject: [PATCH 147/178] fix: the file of a plot added to an earlier figure
 held another figure

---
 nimble/core/data/_dataHelpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 6c7757b..ff50062 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1043,7 +1043,11 @@ def plotFigureHandling(figureID):
     """
     figures = nimble.core.data._plotFigures
     if figureID is not None and figureID in figures:
-        return figures[figureID]
+        fig, ax = figures[figureID]
+        if plt.fignum_exists(fig.number):
+            # the current figure is the one to be saved
+            plt.figure(fig.number)
+        return fig, ax
 
     fig, ax = plt.subplots()
     # tight_layout automatically adjusts margins to accommodate labels
-- 
2.43.0


From 716b214c1e7e2698c4eb7ddcebd2fb4bc54c56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:15 +0000
Subject: [PATCH 148/178] fix: distribution of a feature with missing values

---
 nimble/core/data/base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ebd9c9d..ab615f1 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3098,15 +3098,17 @@ class Base(ABC):
         ax.set_title(title)
         toPlot = getter(index)
               
-        valMax = max(toPlot)
+        # missing values do not belong to any bin
+        known = [val for val in toPlot if val is not None and val == val]
+        valMax = max(known) if known else None
         if type(valMax) in [float, int]:
             if 'bins' not in kwargs:
                 quartiles = nimble.calculate.quartiles(toPlot)
                 IQR = quartiles[2] - quartiles[0]
-                binWidth = (2 * IQR) / (len(toPlot) ** (1. / 3))
+                binWidth = (2 * IQR) / (len(known) ** (1. / 3))
                 # TODO: replace with calculate points after it subsumes
                 # pointStatistics?
-                valMin = min(toPlot)
+                valMin = min(known)
                 if binWidth == 0:
                     binCount = 1
                 else:
@@ -3115,9 +3117,9 @@ class Base(ABC):
                     binCount = int(math.ceil((valMax - valMin) / binWidth))
                 kwargs['bins'] = binCount
         else:
-            toPlot = sorted(list(toPlot))
-          
-        ax.hist(toPlot, **kwargs)
+            known = sorted(known)
+
+        ax.hist(known, **kwargs)
         if 'label' in kwargs:
             ax.legend()
 
-- 
2.43.0


From 259e5eb50465a24e67983cd66c617bbba616114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:38 +0000
Subject: [PATCH 149/178] fix: plot of subgroups of the first feature

---
 nimble/core/data/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index ab615f1..c87c84b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3583,7 +3583,7 @@ class Base(ABC):
             statName = ''
 
         toGroup = self.features[[groupFeature, feature]]
-        if subgroupFeature:
+        if subgroupFeature is not None:
             subgroupFt = self.features[subgroupFeature]
             # remove name in case is same as feature
             subgroupFt.features.setNames(None, oldIdentifiers=0,
@@ -3607,7 +3607,7 @@ class Base(ABC):
             if title is True:
                 title = "95% Confidence Intervals for Mean of " + featureName
 
-        elif subgroupFeature:
+        elif subgroupFeature is not None:
             heights = {}
             for i, (name, group) in enumerate(grouped.items()):
                 names.append(str(name))
-- 
2.43.0


From 90e32f2c6014917abf339551157e56277433015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:54 +0000
Subject: [PATCH 150/178] fix: several points of an object of more than two
 dimensions

---
 nimble/core/data/axis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 87a83ee..353c09e 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -397,7 +397,10 @@ class Axis(ABC):
 
         if singleKey and len(self._base._dims) > 2:
             return self._base.pointView(key[0]).copy()
-        return self._structuralBackend_implementation('copy', key)
+        ret = self._structuralBackend_implementation('copy', key)
+        if len(self._base._dims) > 2:
+            ret._dims[1:] = self._base._dims[1:]
+        return ret
     
     def _anyDefaultNames(self):
         return self.names is None or len(self.names) < len(self)
-- 
2.43.0


From e6b52b147ba9f1836465f6bb19261450eabf56ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:58 +0000
Subject: [PATCH 151/178] fix: points inserted in an object of other dimensions

---
 nimble/core/data/axis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 353c09e..ae1f7e4 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1371,8 +1371,11 @@ class Axis(ABC):
         insertHasOffAxisNames = toInsertOffAxis._namesCreated()
         funcName = self._axis + 's.' + func
 
-        if objOffAxisLen != insertOffAxisLen:
-            if len(self._base._dims) > 2:
+        differentDims = (self._isPoint and
+                         max(len(self._base._dims), len(toInsert._dims)) > 2
+                         and self._base._dims[1:] != toInsert._dims[1:])
+        if differentDims or objOffAxisLen != insertOffAxisLen:
+            if differentDims or len(self._base._dims) > 2:
                 msg = f"Cannot perform {funcName} operation when data has "
                 msg += "different dimensions"
                 raise ImproperObjectAction(msg)
-- 
2.43.0


From bc84971109861092efca8389c5c990c9d87a8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:06 +0000
Subject: [PATCH 152/178] fix: power of Sparse objects of more than two
 dimensions

---
 nimble/core/data/sparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 480845f..f18720d 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -912,7 +912,8 @@ class Sparse(Base):
                 other._numericValidation(right=True)
                 raise
 
-        return caller.calculateOnElements(powFromRight, useLog=False)
+        with caller._treatAs2D(), callee._treatAs2D():
+            return caller.calculateOnElements(powFromRight, useLog=False)
 
     def _genericFloordiv_implementation(self, opName, other):
         """
-- 
2.43.0


From 5c8ced48419159c36e90642550c1b658b92a2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:06 +0000
Subject: [PATCH 153/178] fix: stretch of a Sparse object of more than two
 dimensions

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index f18720d..690dcb7 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -46,6 +46,7 @@ from ._dataHelpers import denseCountUnique, limitToPointsAndFeatures
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
 from ._dataHelpers import isValid2DObject
+from ._dataHelpers import limitedTo2D
 from ._dataHelpers import validateAxis
 
 @inheritDocstringsFactory(Base)
@@ -141,6 +142,7 @@ class Sparse(Base):
         return SparseFeatures(self, names)
 
     @property
+    @limitedTo2D
     def stretch(self):
         return StretchSparse(self)
 
-- 
2.43.0


From 90458c53aa132f7236bb0277171f0d33160ef602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:06 +0000
Subject: [PATCH 154/178] fix: arithmetic on text in more than two dimensions

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index c87c84b..2ebef8b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5299,7 +5299,8 @@ class Base(ABC):
         Validate the object elements are all numeric.
         """
         try:
-            self.calculateOnElements(checkNumeric, useLog=False)
+            with self._treatAs2D():
+                self.calculateOnElements(checkNumeric, useLog=False)
         except ValueError as e:
             msg = "The object on the {0} contains non numeric data, "
             msg += "cannot do this operation"
-- 
2.43.0


From 065f9e8beaa21d78e85bfbf8d6b8f3ab0761a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:19 +0000
Subject: [PATCH 155/178] fix: dates of a DataFrame were copied as integers

---
 nimble/core/data/dataframe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 2ef1b05..be43e6e 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -251,7 +251,10 @@ class DataFrame(Base):
             arr = self._asNumpyArray()
             if any(timestamp):
                 attr = 'to_pydatetime' if to == 'pythonlist' else 'to_numpy'
-                convTimestamp = np.vectorize(lambda v: getattr(v, attr)())
+                # otypes so numpy does not store the dates as integers and to
+                # allow for no points
+                convTimestamp = np.vectorize(lambda v: getattr(v, attr)(),
+                                             otypes=[np.object_])
                 arr[:, timestamp] = convTimestamp(arr[:, timestamp])
 
             if needsReshape:
-- 
2.43.0


From e004661515b5fe08a66109f65743faa2e2a3f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:19 +0000
Subject: [PATCH 156/178] fix: missing values allowed when converting to dates

---
 nimble/core/_createHelpers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 9b54b1a..c2f6325 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -884,14 +884,19 @@ def _parseDatetime(elemType):
     return isDatetime
 
 def _numpyArrayDatetimeParse(data, datetimeType):
-    data = np.vectorize(dateutil.parser.parse)(data)
+    parser = _valueDatetimeParse(datetimeType)
+    data = np.vectorize(parser, otypes=[np.object_])(data)
     if datetimeType is not datetime.datetime:
-        data = np.vectorize(datetimeType)(data)
         data = data.astype(datetimeType)
     return data
 
 def _valueDatetimeParse(datetimeType):
     def valueParser(value):
+        if value is None or value != value:
+            # missing values cannot be parsed
+            if datetimeType is np.datetime64:
+                return np.datetime64('NaT')
+            return np.nan
         if datetimeType is datetime.datetime:
             return dateutil.parser.parse(value)
         return datetimeType(dateutil.parser.parse(value))
@@ -920,7 +925,7 @@ def elementTypeConvert(data, convertToType):
                 data.data = data.data.astype(np.object_)
         elif singleType and _isPandasDataFrame(data):
             if _parseDatetime(convertToType):
-                data = data.applymap(dateutil.parser.parse)
+                data = data.applymap(_valueDatetimeParse(datetime.datetime))
             else:
                 data = data.astype(convertToType)
         elif singleType and data: # 2D list
@@ -967,7 +972,8 @@ def elementTypeConvert(data, convertToType):
                 if convType is None:
                     continue
                 if _parseDatetime(convType):
-                    data[idx] = data[idx].apply(dateutil.parser.parse)
+                    data[idx] = data[idx].apply(
+                        _valueDatetimeParse(datetime.datetime))
                 else:
                     data[idx] = ft.astype(convType)
         elif data: # 2D list
-- 
2.43.0


From 5fb18c96ee4c259455494331e23d0432807c9f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:19 +0000
Subject: [PATCH 157/178] fix: statistics of dates

---
 nimble/calculate/statistic.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/nimble/calculate/statistic.py b/nimble/calculate/statistic.py
index 2ab9df7..598ac43 100644
--- a/nimble/calculate/statistic.py
+++ b/nimble/calculate/statistic.py
@@ -51,6 +51,16 @@ def numericRequired(func):
             return nan
     return wrapped
 
+def _floatArray(arr):
+    """
+    The values as floats. Dates are not numeric, numpy would convert them
+    to the time since its epoch.
+    """
+    if (arr.dtype == np.object_
+            and any(isinstance(val, np.datetime64) for val in arr.flat)):
+        raise TypeError('Dates are not numeric')
+    return arr.astype(np.float64)
+
 def proportionMissing(values):
     """
     The proportion of values in the vector that are missing.
@@ -155,7 +165,7 @@ def _minmax(values, minmax):
         if toProcess.dtype == np.object_:
             if any(not isinstance(v, (np.int_, np.bool_))
                    for v in toProcess):
-                toProcess = toProcess.astype(float)
+                toProcess = _floatArray(toProcess)
             else:
                 toProcess = toProcess.astype(int)
     if minmax == 'min':
@@ -206,7 +216,7 @@ def mean(values):
         nonZero = values._data.data.astype(np.float64)
         numNan = np.sum(np.isnan(nonZero))
         return _meanSparseBackend(nonZero, len(values), numNan)
-    arr = values.copy('numpyarray', outputAs1D=True).astype(np.float64)
+    arr = _floatArray(values.copy('numpyarray', outputAs1D=True))
     return np.nanmean(arr)
 
 @numericRequired
@@ -233,7 +243,7 @@ def median(values):
     >>> median(vector)
     2.0
     """
-    arr = values.copy('numpyarray', outputAs1D=True).astype(np.float64)
+    arr = _floatArray(values.copy('numpyarray', outputAs1D=True))
     return np.nanmedian(arr, overwrite_input=True)
 
 def mode(values):
@@ -329,7 +339,7 @@ def variance(values, sample=True):
             divisor -= 1
         return (dataSumSquared + zeroSumSquared) / divisor
 
-    arr = values.copy('numpyarray', outputAs1D=True).astype(np.float64)
+    arr = _floatArray(values.copy('numpyarray', outputAs1D=True))
     if sample:
         return np.nanvar(arr, ddof=1)
     return np.nanvar(arr)
@@ -381,7 +391,7 @@ def medianAbsoluteDeviation(values):
     >>> medianAbsoluteDeviation(vector)
     1.5
     """
-    arr = values.copy('numpy array', outputAs1D=True).astype(np.float64)
+    arr = _floatArray(values.copy('numpyarray', outputAs1D=True))
     mad = np.nanmedian(np.abs(arr - np.nanmedian(arr)))
     return mad
 
-- 
2.43.0


From 0ec941b1c25403b462d4de663ab6188d9112e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:45 +0000
Subject: [PATCH 158/178] fix: binary features from the dates of a DataFrame

---
 nimble/core/data/dataframe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index be43e6e..dd47d75 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -464,8 +464,10 @@ class DataFrame(Base):
 
     def _replaceFeatureWithBinaryFeatures_implementation(self, uniqueIdx):
         toFill = np.zeros((len(self.points), len(uniqueIdx)))
-        for ptIdx, val in self._data.iterrows():
-            ftIdx = uniqueIdx[val[0]]
+        # the values as they are counted, dates are not pandas Timestamps
+        vals = self._copy_implementation('numpyarray').ravel()
+        for ptIdx, val in enumerate(vals):
+            ftIdx = uniqueIdx[val]
             toFill[ptIdx, ftIdx] = 1
         return DataFrame(pd.DataFrame(toFill))
 
-- 
2.43.0


From f333f1dcd7f9f99ae26899b598097a336e9c044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:28 +0000
Subject: [PATCH 159/178] fix: text in the first list of a dict is not names

---
 nimble/core/_createHelpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index c2f6325..0c5c5a5 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -525,6 +525,8 @@ def _extractNamesFromDict(rawData, pointNames, featureNames, copied):
             if featureNames is True:
                 msg = 'featureNames cannot be True when source is a dict'
                 raise InvalidArgumentValue(msg)
+            if featureNames == 'automatic':
+                featureNames = False
 
         # rawData is now a list of lists, a list of dicts, or
         # something else. In all these cases we go back to extractNames
-- 
2.43.0


From dd74aceb9bd82e6da811a7d67116ff432ad6566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:28 +0000
Subject: [PATCH 160/178] fix: comparison of objects with missing dates

---
 nimble/core/data/_dataHelpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index ff50062..0e46f2b 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -397,6 +397,10 @@ def allDataIdentical(arr1, arr2):
         test1 = np.array(arr1[checkPos], dtype=np.float64)
         test2 = np.array(arr2[checkPos], dtype=np.float64)
         return np.isnan(test1).all() and np.isnan(test2).all()
+    except TypeError:
+        # missing dates cannot be converted to float
+        return all(v1 is None or v1 != v1 for v1 in arr1[checkPos]) and all(
+            v2 is None or v2 != v2 for v2 in arr2[checkPos])
     except ValueError:
         return False
 
-- 
2.43.0


From 94d8fc70057dcb1914c4ddb5ac73c165ea26aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:11 +0000
Subject: [PATCH 161/178] fix: missing dates of a DataFrame were saved as text

---
 nimble/_utility.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nimble/_utility.py b/nimble/_utility.py
index 6b49e94..b0cf048 100644
--- a/nimble/_utility.py
+++ b/nimble/_utility.py
@@ -365,7 +365,13 @@ def pandasDataFrameToList(pdDataFrame):
     """
     Transform a pandas DataFrame into a 2D list.
     """
-    return list(map(list, zip(*(col for _, col in pdDataFrame.items()))))
+    cols = []
+    for _, col in pdDataFrame.items():
+        if col.dtype.kind == 'M':
+            # NaT is only a missing value of pandas
+            col = col.astype(object).where(col.notna(), np.nan)
+        cols.append(col)
+    return list(map(list, zip(*cols)))
 
 def removeDuplicatesNative(cooObj):
     """
-- 
2.43.0


From ae391511b308d8c86ef0ab868ea5d302c16f588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:05 +0000
Subject: [PATCH 162/178] fix: text in the first array of a dict is not names

---
 nimble/core/_createHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 0c5c5a5..8807f49 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -525,8 +525,9 @@ def _extractNamesFromDict(rawData, pointNames, featureNames, copied):
             if featureNames is True:
                 msg = 'featureNames cannot be True when source is a dict'
                 raise InvalidArgumentValue(msg)
-            if featureNames == 'automatic':
-                featureNames = False
+        if featureNames == 'automatic' and (isinstance(rawData[0], Sequence)
+                                            or _isNumpyArray(rawData[0])):
+            featureNames = False
 
         # rawData is now a list of lists, a list of dicts, or
         # something else. In all these cases we go back to extractNames
-- 
2.43.0


From ae399aebc78157fafd3a8284e2fd83269ee3c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:45 +0000
Subject: [PATCH 163/178] fix: names and kept parts of a file whose rows are
 features

---
 nimble/core/_createHelpers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 8807f49..21b707e 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2324,6 +2324,11 @@ def createDataFromFile(
         if len(split) > 1 and split[1].lower() in supportedExtensions:
             extension = split[1].lower()
 
+    if not rowsArePoints:
+        # the rows of the file are the features
+        pointNames, featureNames = featureNames, pointNames
+        keepPoints, keepFeatures = keepFeatures, keepPoints
+
     with ioStream as toLoad:
         selectSuccess = False
         if extension == 'csv':
@@ -2365,6 +2370,11 @@ def createDataFromFile(
         if retFNames is None and isinstance(featureNames, (list, dict)):
             retFNames = featureNames
 
+    if not rowsArePoints:
+        retPNames, retFNames = retFNames, retPNames
+        keepPoints, keepFeatures = keepFeatures, keepPoints
+        extracted = extracted[::-1]
+
     return initDataObject(
         retData, retPNames, retFNames, returnType, name, convertToType,
         keepPoints, keepFeatures, treatAsMissing=treatAsMissing,
-- 
2.43.0


From da0cd453986e5431f1affa7e85c2aa5115404910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:45 +0000
Subject: [PATCH 164/178] fix: pseudo-inverse of an object without values

---
 nimble/calculate/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index 5e360ab..2e07d04 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -172,8 +172,9 @@ def pseudoInverse(aObj):
     if not isinstance(aObj, nimble.core.data.Base):
         raise InvalidArgumentType(
             "Object must be derived class of nimble.core.data.Base.")
-    if not aObj.points and not aObj.features:
-        return aObj
+    if not aObj.points or not aObj.features:
+        return nimble.data(np.empty(aObj.shape[::-1]), useLog=False,
+                           returnType=aObj.getTypeString())
 
     def _handleNonSupportedTypes(exception):
         if re.match('.*object arrays*', str(exception), re.I):
-- 
2.43.0


From 69ff0d27532f815cf6a2d1315503e89bbf519e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:45 +0000
Subject: [PATCH 165/178] fix: normalizeData with labels identified in trainX

---
 nimble/core/learn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index faf67c2..b2445a4 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -493,6 +493,11 @@ def normalizeData(learnerName, trainX, trainY=None, testX=None, arguments=None,
         validateLearningArguments(trainX, trainY, testX)
     merged = mergeArguments(arguments, kwarguments)
 
+    if trainY is not None and not isinstance(trainY, nimble.core.data.Base):
+        # the labels are not a part of the data to normalize
+        trainX = trainX.copy()
+        trainY = trainX.features.extract(trainY, useLog=False)
+
     tl = train(learnerName, trainX, trainY, arguments=merged,
                randomSeed=randomSeed, useLog=False)
     normalizedTrain = tl.apply(trainX, useLog=False)
-- 
2.43.0


From a846c56e8b69942b19af92de3568f32abc49a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:44 +0000
Subject: [PATCH 166/178] fix: labels of a single point predicted by a keras
 learner

---
 nimble/core/interfaces/keras_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index 9935b2e..04f39b5 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -505,7 +505,7 @@ To install keras
             # This indicates we're in the distribution case; argmax will
             # grab the right category regardless of encoding via probability
             # or logits
-            if len(ret) > 1 and len(ret[0]) > 1:
+            if ret.shape[-1] > 1:
                 ret = np.argmax(ret, axis=1)
             # means we must be in the single value case and have to distinguish
             # between logits and probability
-- 
2.43.0


From 2a5097fa493b14e4e3600480a3e5aa32534b2e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:44 +0000
Subject: [PATCH 167/178] fix: seeding a keras initializer changed the argument
 of the user

---
 nimble/core/interfaces/keras_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index 04f39b5..6cd27ef 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -580,6 +580,8 @@ To install keras
         Precurser to the _argumentInit method to handle keras specific objects
         that require random seeding.
         """
+        # the object of the user must not change
+        toInit = nimble.Init(toInit.name, **toInit.kwargs)
         unpack = self._paramQuery('__init__', toInit.name, ['self'])
         params, _, _, defaults = unpack
 
-- 
2.43.0


From b36da00b07575e477ef1dc639daedf965a8edac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:44 +0000
Subject: [PATCH 168/178] fix: initializer objects given to a keras layer were
 ignored

---
 nimble/core/interfaces/keras_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index 6cd27ef..d85ace3 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -607,6 +607,9 @@ To install keras
             elif present and isinstance(toInit.kwargs[name], str):
                 lizerName = toInit.kwargs[name]
                 lizerArgs = {}
+            # an initializer object of the user's own
+            elif present and toInit.kwargs[name] is not None:
+                continue
             # nothing provided, use default value
             else:
                 lizerName = defaultVal
-- 
2.43.0


From ef7a3d4135d124366446913a22e337a07a7f3ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:28 +0000
Subject: [PATCH 169/178] fix: randomSeed did not control keras layers like
 Dropout

---
 nimble/core/interfaces/keras_interface.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index d85ace3..0a8fbbe 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -627,6 +627,15 @@ To install keras
 
                 toInit.kwargs[name] = lizerObj
 
+        # layers with randomness of their own, the seed is not a parameter
+        # that may be validated
+        if 'seed' in params:
+            initArgs = {arg: self._argumentInit(val)
+                        if isinstance(val, nimble.Init) else val
+                        for arg, val in toInit.kwargs.items()}
+            self._validateArgumentValues(toInit.name, initArgs)
+            return self.findCallable(toInit.name)(seed=seed, **initArgs)
+
         # Sub-object seeding handled if needed, can proceed with the standard
         # recursive helper
         return self._argumentInit(toInit)
-- 
2.43.0


From f2b5676af7fecc6ba09166dfa53889e78482368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:33 +0000
Subject: [PATCH 170/178] fix: scores of a keras learner trained with an
 optimizer object

---
 nimble/core/interfaces/_interface_helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/interfaces/_interface_helpers.py b/nimble/core/interfaces/_interface_helpers.py
index f2265ba..00cf44f 100644
--- a/nimble/core/interfaces/_interface_helpers.py
+++ b/nimble/core/interfaces/_interface_helpers.py
@@ -156,6 +156,10 @@ def checkClassificationStrategy(interface, learnerName, trainArgs, scoreArgs,
     learner called using the given interface with the given args. Runs a
     trial on data with 4 classes so that we can use structural.
     """
+    # networks have an output for every label, and a trial cannot be made with
+    # arguments like an optimizer object that is only usable for one network
+    if interface.getCanonicalName() == 'keras':
+        return True
     # we need classes > 2 to test the multiclass strategy, and we should be
     # able to tell structurally when classes != 3. Shape of data must match
     # original for some learners
-- 
2.43.0


From 43e304332d9a14bc36d260bd86fd351c8f25ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:33 +0000
Subject: [PATCH 171/178] fix: incremental training of a keras learner with
 Sparse data

---
 nimble/core/interfaces/keras_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index 0a8fbbe..2fcc782 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -468,6 +468,9 @@ To install keras
         self._setRandomness(arguments, randomSeed)
         param = 'train_on_batch'
         trainOnBatchNames = self._paramQuery(param, learnerName, ['self'])[0]
+        # unlike fit, does not accept sparse data
+        if hasattr(trainX, 'toarray'):
+            trainX = trainX.toarray()
         trainOnBatchParams = {}
         for name in trainOnBatchNames:
             value = None
-- 
2.43.0


From 7b7f7f87f88aa661cd1dddc7eb8a0534043872ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:02 +0000
Subject: [PATCH 172/178] fix: arguments were not given to getScores of a
 custom learner

---
 nimble/core/interfaces/custom_learner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index c0891fb..43ead3c 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -126,7 +126,13 @@ class CustomLearnerInterface(UniversalInterface):
 
     def _getScores(self, learnerName, learner, testX, newArguments,
                    storedArguments, customDict):
-        return learner.getScores(testX)
+        # takes the same arguments as apply, if implemented
+        scoreArgs = inspectArguments(learner.__class__.getScores)[0][2:]
+        usedArgs = {}
+        if scoreArgs:
+            usedArgs = self._getMethodArguments(scoreArgs, newArguments,
+                                                storedArguments)
+        return learner.getScores(testX, **usedArgs)
 
     def _getScoresOrder(self, learner):
         if learner.learnerType == 'classification':
-- 
2.43.0


From acbbb7cfcda340c101a943ddd31a6f5782d05394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:13 +0000
Subject: [PATCH 173/178] fix: arguments given to incrementalTrain were
 reported but not used to apply

---
 nimble/core/interfaces/universal_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index b21143d..f554dbe 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1539,6 +1539,7 @@ class TrainedLearner(object):
             transformedTrainY, transformedArguments, randomSeed,
             self._customDict)
         self._arguments = newArguments
+        self._transformedArguments = transformedArguments
 
         handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
                       self.arguments, trainX, trainY,
-- 
2.43.0


From b2fe37082e86c47a074b508194a8d06a232655b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:58 +0000
Subject: [PATCH 174/178] fix: return type, names and values of structured
 numpy arrays

---
 nimble/core/_createHelpers.py | 76 ++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 21b707e..789f956 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -287,13 +287,21 @@ def extractNamesFromRawList(rawData, pnamesID, fnamesID, copied):
     return rawData, retPNames, retFNames, copied
 
 
+def _structuredNumpyIsNumeric(data, fields):
+    """
+    Whether the fields of a structured numpy array all contain numbers.
+    """
+    return bool(fields) and all(np.issubdtype(data.dtype[field], np.number)
+                                for field in fields)
+
+
 def extractNamesFromNumpy(data, pnamesID, fnamesID, copied):
     """
     Extract name values from a numpy array.
     """
     # if there are no elements, extraction cannot happen. We return correct
     # results for this case so it is excluded from the subsequent code
-    if 0 in data.shape:
+    if 0 in data.shape and not data.dtype.fields:
         return data, None, None, copied
 
     # we allow single dimension arrays as input, but we assume 2d from here
@@ -302,35 +310,31 @@ def extractNamesFromNumpy(data, pnamesID, fnamesID, copied):
     retPNames = None
     retFNames = None
  
-    # Special consideration for Structured Numpy arrays
-    def _convertStructuredNumpyToDataFrame(data):
-        data = pd.DataFrame(data, columns=retFNames)
-        fnamesID = True
-        return extractNamesFromPdDataFrame(data, pnamesID, fnamesID, copied)
-    
+    # Special consideration for Structured Numpy arrays, each field of which
+    # is a named feature and each element of which is a point
     if data.dtype.fields:
-        retFNames = [x for x in data.dtype.fields.keys()]
-        reshapedData = [list(data[x]) for  x in range(len(data))]
-        allNumeric = list(map(isNum, reshapedData[0]))
-        if all(allNumeric):
-            data = np.array(reshapedData)
+        fields = list(data.dtype.names)
+        if fnamesID is not False and fnamesID is not None:
+            retFNames = [str(field) for field in fields]
+        if pnamesID is True:
+            retPNames = [str(val) for val in data[fields[0]].ravel()]
+            fields = fields[1:]
+            retFNames = retFNames[1:] if retFNames else retFNames
+        if _structuredNumpyIsNumeric(data, fields):
+            values = np.empty((data.size, len(fields)),
+                              np.result_type(*(data.dtype[field]
+                                               for field in fields)))
+            for j, field in enumerate(fields):
+                values[:, j] = data[field].ravel()
+        elif pd.nimbleAccessible():
+            values = pd.DataFrame({field: data[field].ravel()
+                                   for field in fields}, columns=fields)
         else:
-            if pnamesID == True:
-                if all(allNumeric[1:]):
-                    retFNames.pop(0)
-                    data = list()
-                    retPNames = list()
-                    for i in reshapedData:
-                        data.append(i[1:])
-                        retPNames.append(i[0])
-                    data = np.array(data)
-                    return data, retPNames, retFNames, copied
-                else:
-                    return _convertStructuredNumpyToDataFrame(reshapedData)
-            else:
-                return _convertStructuredNumpyToDataFrame(reshapedData)
+            values = np.empty((data.size, len(fields)), np.object_)
+            for j, field in enumerate(fields):
+                values[:, j] = data[field].ravel()
+        return values, retPNames, retFNames, True
 
-           
     if len(data.shape) == 1:
         data = data.reshape(1, data.shape[0])
         addedDim = True
@@ -1531,16 +1535,14 @@ def initDataObject(
         rawData = rawData._data
     # convert these types as indexing may cause dimensionality confusion
     elif _isNumpyArray(rawData):
-    # decide if numpy structured array should be Nimble DataFrame not Matrix
-        if rawData.dtype.fields:
-            rowTuple = rawData[0]
-            if len(rowTuple) > 0:
-                allNumeric = list(map(isNum, rowTuple))
-                if not all(allNumeric):
-                    returnType = "DataFrame"
-                if pointNames is True:
-                    if all(allNumeric[1:]):
-                        returnType = "Matrix"
+        # decide if numpy structured array should be Nimble DataFrame not Matrix
+        if rawData.dtype.fields and returnType is None:
+            fields = list(rawData.dtype.names)
+            if (pointNames if rowsArePoints else featureNames) is True:
+                fields = fields[1:]
+            if (pd.nimbleAccessible()
+                    and not _structuredNumpyIsNumeric(rawData, fields)):
+                returnType = "DataFrame"
         if _isNumpyMatrix(rawData):
             rawData = np.array(rawData)
             copied = True
-- 
2.43.0


From 245366c4b96f361db0faba74a1f28a2854621206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:10 +0000
Subject: [PATCH 175/178] fix: numpy integers identifying the labels in
 validation

---
 nimble/core/tune.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 06ee606..dbd9998 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -209,7 +209,7 @@ class Validator(ABC):
 
         self.learnerName = learnerName
 
-        if isinstance(Y, (int, str, list)):
+        if isinstance(Y, (numbers.Integral, str, list)):
             X = X.copy()
             Y = X.features.extract(Y, useLog=False)
 
@@ -465,7 +465,7 @@ class LeaveOneGroupOut(CrossValidator):
                 msg = "foldFeature and Y cannot be the same feature"
                 raise InvalidArgumentValueCombination(msg)
             foldFeature = X.features[foldFeature]
-            if isinstance(Y, (str, int, list)):
+            if isinstance(Y, (numbers.Integral, str, list)):
                 X = X.copy()
                 Y = X.features.extract(Y, useLog=False)
         elif len(foldFeature.points) != len(X.points):
@@ -491,11 +491,11 @@ class HoldoutValidator(Validator):
             msg = "validateX cannot be None"
             raise InvalidArgumentValue(msg)
         if validateY is None: # use Y value if an identifier
-            if not isinstance(Y, (int, str, list)):
+            if not isinstance(Y, (numbers.Integral, str, list)):
                 msg = "No data provided for validateY"
                 raise InvalidArgumentValue(msg)
             validateY = Y
-        if isinstance(validateY, (int, str, list)):
+        if isinstance(validateY, (numbers.Integral, str, list)):
             validateX = validateX.copy()
             validateY = validateX.features.extract(validateY, useLog=False)
 
@@ -681,7 +681,7 @@ class HoldoutProportion(HoldoutValidator):
                                        replace=False)
         X = X.copy()
         validateX = X.points.extract(selection, useLog=False)
-        if isinstance(Y, (int, str, list)):
+        if isinstance(Y, (numbers.Integral, str, list)):
             validateY = Y
         else:
             Y = Y.copy()
-- 
2.43.0


From bb1ad48921952975aa856f770f234f271de7166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:23 +0000
Subject: [PATCH 176/178] fix: Sparse times List or DataFrame objects of more
 than two dimensions

---
 nimble/core/data/sparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 690dcb7..3ca089d 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -884,7 +884,10 @@ class Sparse(Base):
         elif isinstance(other, nimble.core.data.Matrix):
             toMul = scipy.sparse.coo_matrix(other._data)
         else:
-            toMul = scipy.sparse.coo_matrix(other.copy(to='numpyarray'))
+            # always two dimensional, as the data of this object
+            otherData = other.copy(to='numpyarray')
+            toMul = scipy.sparse.coo_matrix(
+                otherData.reshape(self._data.shape))
         raw = target._data.multiply(toMul)
         if scipy.sparse.isspmatrix(raw):
             raw = raw.tocoo()
-- 
2.43.0


From 77b12762554e000f25dcdde1f39a9ef5772cd9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:52 +0000
Subject: [PATCH 177/178] fix: learnerType of a class that is not a learner

---
 nimble/core/learn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index b2445a4..e8234e0 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -85,7 +85,7 @@ def learnerType(learnerNames): # pylint: disable=redefined-outer-name
         currInterface, currName = _unpackLearnerName(name)
         allValidLearnerNames = currInterface.learnerNames()
         if not currName in allValidLearnerNames:
-            msg = name + " is not a valid learner on your machine."
+            msg = str(name) + " is not a valid learner on your machine."
             raise InvalidArgumentValue(msg)
         result = currInterface.learnerType(currName)
         if result == 'UNKNOWN':
-- 
2.43.0


From 6b41f5a1e60166b5cb8a78fa71beb4eb15315413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:12 +0000
Subject: [PATCH 178/178] fix: learnerType of classes with a type only found by
 trials

---
 nimble/core/learn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index e8234e0..c5f87c0 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -90,7 +90,8 @@ def learnerType(learnerNames): # pylint: disable=redefined-outer-name
         result = currInterface.learnerType(currName)
         if result == 'UNKNOWN':
             resultsList.append(None)
-            secondPassLearnerNames.append(name)
+            secondPassLearnerNames.append(
+                currInterface.getCanonicalName() + '.' + currName)
         else:
             resultsList.append(result)
             secondPassLearnerNames.append(None)
-- 
2.43.0

