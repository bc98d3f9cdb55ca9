From 3a7995447438d6b7510768bb41e6b95112663a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 01/76] fix: keep dimension, sub-systems and terms of a system
 removed from a composite

---
 src/quanguru/classes/QSystem.py | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 41eebb0..83637f9 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -461,38 +461,17 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             Raises an error if removeSubSys is called on a single system.
             This method also updates the dimsBefore/After of the remaining sub-systems (and the removed system), deletes
             the existing matrices so that they are re-created with the proper dimensions.
-            When removing a single system, it sets the dimension of the single system to 1, so that all the
-            dimsBefore/After information are updated by the dimensionUpdate method.
-            However, we might still need the removed system, so its dimension is stored (in oldDim) and set back again
-            (into _QuantumSystem__dimension) after its removed.
-            When removing a composite system, it makes _removeSubSysExc to each sub-system of the removed composite
-            system, and these nested calls sets the dimensions of all the single systems below the removed composite to
-            1 so that the dimsBefore/After information are again updated by the dimensionUpdate method.
-            However, the removed composite system might still be needed, and we might not want these dimensions to be 1
-            or these single systems to be removed from the removed composite system.
-            These are avoided by storing&setting the dimensions back to their original values for single systems and
-            adding the removed sub-systems of removed composite systems back in.
+            The dimsBefore/After information of the remaining systems are updated by the _updateDimension method, and the
+            removed system (single or composite) keeps its own dimension, sub-systems, and terms.
         """
         checkNotVal(self._isComposite, False,
                     f"{self.name} is not a composite. removeSubSys cannot be called on single systems")
         subSys = self.getByNameOrAlias(subSys)
         if subSys in self.subSys.values():
             _exclude.append(self)
-            if subSys._isComposite: # pylint:disable=protected-access
-                # need to create this for two reasons
-                # 1. because subSys.subSys changes its size due to _removeSubSysExc calls
-                # 2. we add these systems back again after removal
-                qsysList = list(subSys.subSys.values())
-                for qsys in qsysList:
-                    subSys._removeSubSysExc(qsys, _exclude=_exclude)#pylint:disable=protected-access
-                super()._removeSubSysExc(subSys, _exclude=_exclude)
-                # add the sub-systems of subSys back again
-                subSys.addSubSys(qsysList)
-            else:
-                oldDim = subSys.dimension
-                subSys.dimension = 1
-                super()._removeSubSysExc(subSys, _exclude=_exclude)
-                setAttr(self, '_QuantumSystem__dimension', oldDim)
+            # other systems no longer have the removed system before/after them, this also updates nested-structures
+            self._updateDimension(subSys, 1, subSys.dimension)
+            super()._removeSubSysExc(subSys, _exclude=_exclude)
             subSys.superSys = None
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
-- 
2.43.0


From dd0156c432840204521f655e9e3c4ff9e12fbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 02/76] fix: update dimensions of surrounding systems when
 adding a sub-system to a nested composite

---
 src/quanguru/classes/QSystem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 83637f9..29bd2c1 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -374,9 +374,14 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         internal method used to update relevant information (such as dimension before/after) for the existing and newly
         added sub-systems. This is purely for internal use.
         """
+        oldDim = self.dimension
+        subSys._dimsBefore *= self._dimsBefore
+        subSys._dimsAfter *= self._dimsAfter
         for subS in self.subSys.values():
             subS._dimsAfter *= subSys.dimension
             subSys._dimsBefore *= subS.dimension
+        if self.superSys is not None: # self is nested, so the systems around self need to be updated as well
+            self.superSys._updateDimension(self, oldDim*subSys.dimension, oldDim) # pylint: disable=protected-access
         return subSys
 
     @addDecorator
-- 
2.43.0


From 1e417edc9b7190e5c49fc613f5257605cfd09041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 03/76] fix: remove couplings of a removed system from every
 enclosing composite system

---
 src/quanguru/classes/QSystem.py | 5 +++++
 src/quanguru/classes/QTerms.py  | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 29bd2c1..300b04a 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -482,6 +482,11 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             subSys._dimsBefore = 1
             subSys.delMatrices(_exclude=[])
             _exclude.append(subSys)
+            compSys = self.superSys
+            while compSys is not None: # couplings of subSys in the outer composite systems
+                for ter in list(compSys.terms.values()):
+                    ter._removeTermIfQSysInList(compSys, subSys)#pylint:disable=protected-access
+                compSys = compSys.superSys
         else:
             if self not in _exclude:
                 _exclude.append(self)
diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index 6fcc983..f674470 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -116,11 +116,12 @@ class QTerm(paramBoundBase):
 
     def _removeTermIfQSysInList(self, qSys, subSys):
         r"""
-        removes self (the term) from the terms of given qSys if a particular subSys is in qSystem list of self.
+        removes self (the term) from the terms of given qSys if a particular subSys (or any system nested in it) is in
+        qSystem list of self.
         This is an internal method used in removeSubSys of quantum systems.
         """
         if isinstance(self.qSystem, (list, tuple)):
-            if subSys in self.qSystem:
+            if any(((qs is subSys) or subSys._hasInSubs(qs)) for qs in self.qSystem): #pylint:disable=protected-access
                 qSys.removeTerm(self)
 
     @staticmethod
-- 
2.43.0


From 84b918eae4383c9ba7c33c574d594d288f40a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 04/76] fix: reset first-term and cached Hamiltonian when terms
 are removed or reset

---
 src/quanguru/classes/QSystem.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 300b04a..9f4fef8 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -609,6 +609,8 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         if termObj in self.terms.values():
             _exclude.append(self)
             self.terms.pop(termObj.name)
+            if termObj is self._QuantumSystem__firstTerm:
+                self._QuantumSystem__firstTerm = next(iter(self.terms.values()), None) #pylint:disable=assigning-non-slot
             _exclude.append(termObj)
         else:
             if self not in _exclude:
@@ -632,7 +634,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         You can also give a list of terms (or their named/aliases) to be removed.
         This method is a wrapper around the actual remove method the ``_removeTermExc`` so that it is called with an
         empty _exclude list, which is used to avoid infinite recursions when finding the term inside a nested system.
-        Note that it will raise an error, if the given term is the first-term if the system.
+        If the first term of the system is removed, the next one of its terms (if any) becomes the first term.
         """
         termObj = self.getByNameOrAlias(termObj)
         self._removeTermExc(termObj=termObj, _exclude=[])
@@ -642,6 +644,9 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         Method to delete all the existing terms by assigning a new empty dictionary.
         """
         self._QuantumSystem__terms = aliasDict() # pylint:disable=assigning-non-slot
+        self._QuantumSystem__firstTerm = None # pylint:disable=assigning-non-slot
+        self.delMatrices(_exclude=[])
+        self._paramUpdated = True
 
     @terms.setter
     def terms(self, trm):
-- 
2.43.0


From c2568fc4313baca46152e565fc9d42d9cba08ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 05/76] fix: copy of a quantum system keeps all the terms,
 nested couplings, and the initial state

---
 src/quanguru/classes/QSystem.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 9f4fef8..0cbc9ed 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -354,6 +354,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         """
         return (other in self.subSys.values() or any(qs._hasInSubs(other) for qs in self.subSys.values())) # pylint:disable=protected-access
 
+    def _nestedSystems(self):
+        r"""
+        Returns a list of self and all the systems nested inside the self.subSys
+        """
+        return [self] + [qs for sub in self.subSys.values() for qs in sub._nestedSystems()] # pylint: disable=protected-access
+
     # sub-system methods and properties
     @property
     def ind(self):
@@ -712,30 +718,19 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             cqsys = qsys.copy()
             cqsys.alias = qsys.name + "_" + cqsys.name
             newSys.addSubSys(cqsys)
-        subSysList = list(newSys.subSys.values())
+        oldSystems, newSystems = self._nestedSystems(), newSys._nestedSystems() # pylint: disable=protected-access
+        newSys.resetTerms() # drops the default term
         for ter in self.terms.values():
             if isinstance(ter.qSystem, QuantumSystem):
-                qSystemNames = newSys
-            else:
-                qSystemNames = []
-                for qsys in ter.qSystem:
-                    qSystemNames.append(qsys.name + "_" + subSysList[qsys.ind].name)
-
-            if newSys._QuantumSystem__firstTerm is None:#pylint:disable=no-member,protected-access
-                newSys.createTerm(qSystem=qSystemNames, #pylint:disable=no-member
-                                  operator=ter.operator,
-                                  frequency=ter.frequency,
-                                  order=ter.order)
+                qSystems = newSys
             else:
-                newSys._firstTerm.qSystem=qSystemNames#pylint:disable=no-member,protected-access
-                newSys._firstTerm.operator=ter.operator#pylint:disable=no-member,protected-access
-                newSys._firstTerm.frequency=ter.frequency#pylint:disable=no-member,protected-access
-                newSys._firstTerm.order=ter.order#pylint:disable=no-member,protected-access
-        if self.simulation._stateBase__initialStateInput._value is not None:
-            newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot
+                qSystems = [newSystems[oldSystems.index(qsys)] for qsys in ter.qSystem]
+            newSys.createTerm(qSystem=qSystems, operator=ter.operator, frequency=ter.frequency, order=ter.order)
         if not self._isComposite:
             newSys.dimension = self.dimension#pylint:disable=assigning-non-slot
             newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot
+        if self.simulation._stateBase__initialStateInput._value is not None:
+            newSys.initialState = self.simulation._stateBase__initialStateInput.value #pylint:disable=assigning-non-slot
         newSys._named__setKwargs(**kwargs) #pylint:disable=no-member
         return newSys
 
-- 
2.43.0


From 6fb0640207eb8665ec192618cc4e3c7cc1b64a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 06/76] fix: re-create initial states of all the enclosing
 composites when the state of a sub-system is set

---
 src/quanguru/classes/QSystem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 0cbc9ed..2790312 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -178,8 +178,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         checkNotVal(self._QuantumSystem__compSys,None,f'Type of {self.name} is ambiguous. Single and composite systems'+
                                                    ' handle initial state inputs differently, so you need to set other'+
                                                    f' relevant parameters to determine the type of {self.name}')
-        if self.superSys is not None:
-            self.superSys.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
+        compSys = self.superSys
+        while compSys is not None: # every enclosing composite system has to re-create its state from its sub-systems
+            compSys.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
+            if not isinstance(compSys._initialStateInput, (ndarray, spmatrix)):
+                compSys.simulation._initialStateInput = None
+            compSys = compSys.superSys
 
         if self._isComposite:
             if not isinstance(inp, (ndarray, spmatrix)):
-- 
2.43.0


From 6f50b4a69556baf8946aacbbc30f87cd8b11d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 07/76] fix: Hermitian conjugate of a step is re-created with
 its unitary

---
 src/quanguru/classes/baseClasses.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/baseClasses.py b/src/quanguru/classes/baseClasses.py
index a0e8a68..7826a32 100644
--- a/src/quanguru/classes/baseClasses.py
+++ b/src/quanguru/classes/baseClasses.py
@@ -153,9 +153,8 @@ class paramBoundBase(qBase):
 
     @property
     def _hc(self):
-        if ((self._paramBoundBase__matrixHc is None)
-            or (self._paramBoundBase__matrixHc.shape != self._paramBoundBase__matrix.shape)): # pylint: disable=assigning-non-slot
-            self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
+        # the matrix might have been re-created since the last call, so this cannot rely on the stored value
+        self._paramBoundBase__matrixHc = hc(self._paramBoundBase__matrix) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrixHc # pylint: disable=assigning-non-slot
 
     @property
-- 
2.43.0


From c09ef559bcb65e33a5cc3400a67f5d0e00a09945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 08/76] fix: changing the ratio, phase, or implementation of a
 protocol re-creates its unitary

---
 src/quanguru/classes/QGates.py | 12 ++++++++++--
 src/quanguru/classes/QPro.py   |  6 +++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 921372c..2a1a6a2 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -35,13 +35,13 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     _externalInstances: int = 0
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
-    __slots__ = ['__angle', '__rotationAxis', 'phase', '_rotationOp']
+    __slots__ = ['__angle', '__rotationAxis', '__phase', '_rotationOp']
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
         self.__angle = None
         self.__rotationAxis = None
         self._rotationOp = None
-        self.phase = 1
+        self.__phase = 1
         #self._createUnitary = self._rotMat
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
@@ -53,6 +53,14 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
     def angle(self, val):
         setAttr(self, '_SpinRotation__angle', val)
 
+    @property
+    def phase(self):
+        return self._SpinRotation__phase
+
+    @phase.setter
+    def phase(self, val):
+        setAttr(self, '_SpinRotation__phase', val)
+
     @property
     def rotationAxis(self):
         return self._SpinRotation__rotationAxis # pylint: disable=no-member
diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f3379ab..09419fd 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -33,7 +33,7 @@ from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond
 
 from .base import qBase, addDecorator
 from .baseClasses import updateBase
-from .QSimBase import _parameter
+from .QSimBase import _parameter, setAttr
 from .QSimComp import QSimComp
 from .QSweep import Sweep
 
@@ -158,7 +158,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
 
     @ratio.setter
     def ratio(self, val):
-        self._genericProtocol__ratio = val # pylint: disable=assigning-non-slot
+        setAttr(self, '_genericProtocol__ratio', val)
 
     @property
     def system(self):
@@ -451,7 +451,7 @@ class Gate(genericProtocol):
 
     @implementation.setter
     def implementation(self, typeStr):
-        self._Gate__implementation = typeStr # pylint: disable=assigning-non-slot
+        setAttr(self, '_Gate__implementation', typeStr)
 
 class Update(updateBase):
     label = 'Update'
-- 
2.43.0


From ce128b1a145b3b320570cdbb794898c6954ddd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 09/76] fix: unitary of a fixed protocol is created when it
 does not exist yet

---
 src/quanguru/classes/QPro.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 09419fd..469d6ed 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -198,10 +198,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
-        if self._paramUpdated:
-            if not self.fixed:
-                self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
+        if ((self._paramBoundBase__matrix is None) or (self._paramUpdated and (not self.fixed))): # pylint: disable=no-member
             self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -227,14 +224,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
 
     def _defGetUnitary(self, collapseOps = None, decayRates = None):
-        runCreate = False
-        if self._paramUpdated:
-            if not self.fixed:
-                runCreate = True
-        elif self._paramBoundBase__matrix is None: # pylint: disable=no-member
-            runCreate = True
-
-        if runCreate:
+        if ((self._paramBoundBase__matrix is None) or (self._paramUpdated and (not self.fixed))): # pylint: disable=no-member
             lc = 1
             td = False
             if len(self.timeDependency.sweeps) > 0:
-- 
2.43.0


From 1a3f84b34d52a9f33bceab2b236bb6844b7bce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 10/76] fix: adding an update or changing its value re-creates
 the unitary of its protocols

---
 src/quanguru/classes/QPro.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 469d6ed..62e0b07 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -147,6 +147,8 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
     def addUpdate(self, *args):
         for update in args:
             self._genericProtocol__updates.append(update) # pylint: disable=no-member
+            update._paramBoundProtocols.append(self) # pylint: disable=protected-access
+            self._paramUpdated = True
 
     @property
     def updates(self):
@@ -452,16 +454,28 @@ class Update(updateBase):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['value', '__memoryValue', 'setup', 'setback']
+    __slots__ = ['__value', '__memoryValue', 'setup', 'setback', '_paramBoundProtocols']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
-        self.value = None
+        #: protocols that use this update, their unitary needs to be re-created when the value is changed
+        self._paramBoundProtocols = []
+        self.__value = None
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
+    @property
+    def value(self):
+        return self._Update__value
+
+    @value.setter
+    def value(self, val):
+        self._Update__value = val # pylint: disable=assigning-non-slot
+        for protocol in self._paramBoundProtocols:
+            protocol._paramUpdated = True # pylint: disable=protected-access
+
     @property
     def memoryValue(self):
         return self._Update__memoryValue
-- 
2.43.0


From 3f90384d46541bb2b26bdd70a1ce5ec3061ef834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 11/76] fix: adding or removing steps, or evaluating a shared
 step, re-creates the unitary of every protocol using it

---
 src/quanguru/classes/QPro.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 62e0b07..43f9a07 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -31,7 +31,7 @@ r"""
 from ..QuantumToolbox import evolution as lio #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond-top-level
 
-from .base import qBase, addDecorator
+from .base import qBase, addDecorator, _recurseIfList
 from .baseClasses import updateBase
 from .QSimBase import _parameter, setAttr
 from .QSimComp import QSimComp
@@ -299,7 +299,8 @@ class qProtocol(genericProtocol):
             if isinstance(step, copyStep):
                 super().addSubSys(step)
             elif step._genericProtocol__inProtocol:
-                super().addSubSys(copyStep(step))
+                step = copyStep(step)
+                super().addSubSys(step)
             else:
                 super().addSubSys(step)
                 step._genericProtocol__inProtocol = True
@@ -307,8 +308,32 @@ class qProtocol(genericProtocol):
                 step.simulation._bound(self.simulation, re=True) # pylint: disable=protected-access
                 if ((step.superSys is None) and (self.superSys is not None)):
                     step.superSys = self.superSys
+            self._stepSource(step)._paramBoundBase__paramBound[self.name] = self
+            self._paramUpdated = True
+
+    @staticmethod
+    def _stepSource(step):
+        r"""
+        returns the protocol whose unitary is used for the given step, i.e. the original for a `copyStep` else itself.
+        """
+        return step.superSys if isinstance(step, copyStep) else step
+
+    @_recurseIfList
+    def _removeSubSysExc(self, subSys, _exclude=[]): # pylint: disable=dangerous-default-value
+        step = self.getByNameOrAlias(subSys)
+        super()._removeSubSysExc(step, _exclude=_exclude)
+        source = self._stepSource(step)
+        if source not in [self._stepSource(st) for st in self.subSys.values()]:
+            source._paramBoundBase__paramBound.pop(self.name, None)
+        self._paramUpdated = True
+
+    def resetSubSys(self):
+        for step in list(self.subSys.values()):
+            self.removeSubSys(step)
 
     def _puValues(self, step, vals):#pylint:disable=dangerous-default-value
+        # NOTE stores/restores the booleans of the remaining steps without informing their other bounds, which still
+        # need to re-create their unitaries.
         subSysList = list(self.subSys.values())
         ind = subSysList.index(step) + 1
         if len(vals) == 0:
@@ -316,7 +341,8 @@ class qProtocol(genericProtocol):
                 vals.append(st._paramUpdated)
         else:
             for ind2, st in enumerate(subSysList[ind:]):
-                st._paramUpdated = vals[ind2]
+                if not isinstance(st, copyStep):
+                    st._paramBoundBase__paramUpdated = vals[ind2]
         return vals
 
     def _defCreateUnitary(self, collapseOps = None, decayRates = None):
-- 
2.43.0


From 2e0280b8bcc7004e43c535dd3a2fe6222b8926d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 12/76] fix: sweep lengths are reset without sweeps, removing a
 sweep works with several sweeps, and first sweep can be combinatorial

---
 src/quanguru/classes/QSweep.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 8c1fcd6..8abc3a4 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -261,9 +261,11 @@ class Sweep(qBase):
         else:
             sweeps = list(self.subSys.values())
             for sweep in sweeps:
-                sweep._removeSubSysExc(sys, _exclude=[]) #pylint:disable=protected-access
-                if len(sweep.subSys) == 0:
-                    super()._removeSubSysExc(sweep, _exclude=[])
+                obj = self.getByNameOrAlias(sys)
+                if any(sub is obj for sub in sweep.subSys.values()):
+                    sweep._removeSubSysExc(obj, _exclude=[]) #pylint:disable=protected-access
+                    if len(sweep.subSys) == 0:
+                        super()._removeSubSysExc(sweep, _exclude=[])
 
     def createSweep(self, system=None, sweepKey=None, **kwargs):
         r"""
@@ -315,12 +317,11 @@ class Sweep(qBase):
         attributes/properties. The reason for this a bit argued in :meth:`indMultip`, but it is basically to ensure that
         any changes to ``sweepList/s`` or ``combinatorial/s`` are accurately used/reflected (especially on re-runs).
         """
-        if len(self.subSys) > 0:
-            self._Sweep__inds = [] # pylint: disable=assigning-non-slot
-            for indx, sweep in enumerate(self.subSys.values()):
-                if ((sweep.combinatorial is True) or (indx == 0)):
-                    self._Sweep__inds.insert(0, len(sweep.sweepList))
-            self._Sweep__indMultip = reduce(lambda x, y: x*y, self._Sweep__inds) # pylint: disable=assigning-non-slot
+        self._Sweep__inds = [] # pylint: disable=assigning-non-slot
+        for indx, sweep in enumerate(self.subSys.values()):
+            if ((sweep.combinatorial is True) or (indx == 0)):
+                self._Sweep__inds.insert(0, len(sweep.sweepList))
+        self._Sweep__indMultip = reduce(lambda x, y: x*y, self._Sweep__inds, 1) # pylint: disable=assigning-non-slot
 
     def runSweep(self, indList):
         r"""
@@ -331,8 +332,8 @@ class Sweep(qBase):
         ``subSys`` one after the other. Also, for nested Sweeps, the indList should be a properly nested list.
         """
         indx = 0
-        for sweep in self.sweeps.values():
-            if sweep.combinatorial is True:
+        for sweepIndx, sweep in enumerate(self.sweeps.values()):
+            if ((sweep.combinatorial is True) and (sweepIndx > 0)):
                 indx += 1
             sweep.runSweep(indList[indx])
 
-- 
2.43.0


From 64972b61cea4d9c844d33fe645dfef50bf46f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 13/76] fix: remove systems and protocols from a simulation
 before and after it is run

---
 src/quanguru/classes/QSim.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 3dd482f..c4721d0 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -234,7 +234,14 @@ class Simulation(timeBase):
         """
         #for key, subSys in self._qBase__subSys.items(): # pylint: disable=no-member
         #    if ((subSys is subS) or (subSys.name == subS)):
-        super()._removeSubSysExc(subS, _exclude=[]) # pylint: disable=no-member
+        subS = self.getByNameOrAlias(subS)
+        keys = [key for key, qSys in self.subSys.items() if qSys is subS]
+        if len(keys) == 0:
+            raise KeyError(subS.name)
+        for key in keys: # keys are the protocols (or the name of the system before the first run)
+            self.subSys.pop(key)
+            if isinstance(key, named):
+                self.removeSweep([key, key.simulation])
         #print(subS.name + ' and its protocol ' + key.name + ' is removed from qSystems of ' + self.name)
         self.removeSweep([subS, subS.simulation, subS._freeEvol, subS._freeEvol.simulation])
 
@@ -257,7 +264,8 @@ class Simulation(timeBase):
         #  or a freeEvol obj after run
         qsys = self._qBase__subSys.pop(Protocol, None) # pylint: disable=no-member
         if qsys is not None:
-            self.removeSweep([Protocol, Protocol.simulation])
+            if isinstance(Protocol, named):
+                self.removeSweep([Protocol, Protocol.simulation])
             if qsys not in self.qSystems:
                 self.removeSweep(qsys)
 
-- 
2.43.0


From 01f48925cf230f583910be1f1053c656e2ce0c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 14/76] fix: toolbox helpers accept numpy integers, keep given
 basis unchanged, and CSV of complex values or a single list

---
 src/quanguru/QuantumToolbox/states.py  | 6 ++----
 src/quanguru/extensions/saveReadCSV.py | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/states.py b/src/quanguru/QuantumToolbox/states.py
index 45e044a..cd0925b 100644
--- a/src/quanguru/QuantumToolbox/states.py
+++ b/src/quanguru/QuantumToolbox/states.py
@@ -321,7 +321,7 @@ def superPos(dimension: int, excitations: supInp, populations: bool = True, spar
             sts = {k:np.sqrt(v) for (k, v) in sts.items()}  # noqa: E231
     elif isinstance(excitations, (int, np.integer)):
         sts = {excitations:1}  # noqa: E231
-    elif all(isinstance(item, int) for item in excitations):
+    elif all(isinstance(item, (int, np.integer)) for item in excitations):
         sts = {k: 1 for k in excitations}
     else:
         raise TypeError('Unsupported type for parameter excitations')
@@ -421,9 +421,7 @@ def completeBasisMat(dimension: Optional[int] = None, compKetBase: Optional[matr
     else:
         compBase = compKetBase
 
-    for i, state in enumerate(compBase):
-        compBase[i] = densityMatrix(state)
-    return compBase
+    return [densityMatrix(state) for state in compBase]
 
 def normalise(state: Matrix) -> Matrix:
     r"""
diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index c5f2a64..a66891b 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -94,7 +94,7 @@ def readCSV(path, datatype=float, realVal=True):
             if datatype != np.complex128:
                 data.append(np.array(list(row), dtype=datatype))
             else:
-                li = np.genfromtxt(list(row), delimiter=',', dtype=np.complex)
+                li = np.array(list(row), dtype=np.complex128)
                 data.append(np.real(li) if realVal else li)
     return data if len(data) > 1 else data[0]
 
@@ -106,7 +106,7 @@ def _recursiveSaveList(data, path=None, fileName=None):
         elif isinstance(data[0][0], (float, int, np.complex128)):
             saveCSV(data, path=path, fileName=fileName)
     elif isinstance(data[0], (float, int, np.complex128)):
-        saveCSV(data[0], path=path, fileName=fileName)
+        saveCSV(data, path=path, fileName=fileName)
 
 def _saveDictToCSV(data, path=None, fileName=''):
     for key, val in data.items():
-- 
2.43.0


From 002cf5cdf9b199eb1582caacf7d8f3b2b7c7012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 15/76] fix: dissipators of a protocol are included only once
 and with their current rates

---
 src/quanguru/classes/QPro.py        | 9 ++++-----
 src/quanguru/classes/environment.py | 1 +
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 43f9a07..09efaec 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -195,22 +195,21 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self.simulation._qBase__subSys[self] = self.superSys # pylint: disable=protected-access
 
     def unitary(self):
-        collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-        decayRates = None if not self._isOpen else list(self._dissipator.values())
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
         if ((self._paramBoundBase__matrix is None) or (self._paramUpdated and (not self.fixed))): # pylint: disable=no-member
-            self._paramBoundBase__matrix = self.getUnitary(collapseOps, decayRates) # pylint: disable=assigning-non-slot
+            # dissipators of self are included by getUnitary
+            self._paramBoundBase__matrix = self.getUnitary() # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def getUnitary(self, collapseOps = None, decayRates = None):
         if collapseOps is None:
             collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = None if not self._isOpen else list(self._dissipator.values())
+            decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator.keys()]
         else:
             collapseOps = collapseOps + [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = decayRates + list(self._dissipator.values())
+            decayRates = decayRates + [ds.jRate for ds in self._dissipator.keys()]
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
 
diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 9e82b59..000147e 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -75,6 +75,7 @@ class dissipatorObj(_genericOpen):
     @temperature.setter
     def temperature(self, temp):
         self._dissipatorObj__bath.temperature = temp
+        self._paramUpdated = True # the rate depends on the temperature
 
     @_genericOpen.superSys.setter # pylint: disable=no-member
     def superSys(self, supSys):
-- 
2.43.0


From 5ca8994d329177b696441112f0ac77aed588bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 16/76] fix: collect values of calculate methods from
 multi-processing

---
 src/quanguru/classes/QRes.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/quanguru/classes/QRes.py b/src/quanguru/classes/QRes.py
index 5f7b201..4101784 100644
--- a/src/quanguru/classes/QRes.py
+++ b/src/quanguru/classes/QRes.py
@@ -268,11 +268,28 @@ class qResults(qResBase):
         (see :meth:`~_copyAllResBlank`), this method re-writes the results into corresponding :class:`~qResults` objects
         and re-shapes them into correct sweep and time trace structure. Calls other methods of the class for these.
         """
+        # copies in the other processes start with the already calculated values
+        calculatedCounts = {res.name: {key: len(val) for key, val in res.calculated.items() if isinstance(val, list)}
+                            for res in self.allResults.values()}
         for res in results:
             for keyUni, valUni in res.items():
                 self._organise(keyUni, valUni)
+                self._organiseCalculated(keyUni, valUni, calculatedCounts.get(keyUni, {}))
         self._finaliseAll(inds)
 
+    @staticmethod
+    def _organiseCalculated(keyUni, valUni, counts):
+        r"""
+        Collects the calculated values from the multi-processing returns, in the single process these are stored
+        directly into the :class:`~qResults` objects.
+        """
+        calculated = qResults._allResults[keyUni].calculated
+        for key, val in valUni._qResBlank__calculated.items():
+            if isinstance(val, list):
+                calculated[key].extend(val[counts.get(key, 0):])
+            else:
+                calculated[key] = val
+
     @classmethod
     def _finaliseAll(cls, inds):
         r"""
-- 
2.43.0


From c87383382aa6cee587934b5ec3d5feaa50c12f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 17/76] fix: frequency of a term can be any number type

---
 src/quanguru/classes/QTerms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index f674470..787a7b6 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -19,6 +19,8 @@
 
 """
 
+from numbers import Number
+
 from .baseClasses import paramBoundBase
 from .QSimBase import setAttr
 from .exceptions import checkCorType, checkVal, checkNotVal
@@ -225,7 +227,7 @@ class QTerm(paramBoundBase):
 
     @frequency.setter
     def frequency(self, freq):
-        checkCorType(freq, (int, float, complex, type(None)), 'frequency of a term')
+        checkCorType(freq, (Number, type(None)), 'frequency of a term')
         setAttr(self, '_QTerm__frequency', 0 if freq == 0.0 else freq)
         for ter in self.subSys.values():
             ter.frequency = freq
@@ -235,7 +237,7 @@ class QTerm(paramBoundBase):
         r"""
         Return the total Hamiltonian (ie frequency*operator) for this term.
         """
-        checkCorType(self.frequency, (int, float, complex),
+        checkCorType(self.frequency, Number,
                      f'frequency of {self.qSystem} term/s have to be a numerical value ({(int, float, complex)})')
         if ((self._QTerm__HamiltonianTerm is None) or (self._paramUpdated) or (self._paramBoundBase__matrix is None)): # pylint: disable=no-member
             self._QTerm__HamiltonianTerm = self.frequency*self._freeMatrix #pylint:disable=assigning-non-slot
-- 
2.43.0


From 772aeb5543eb65d6e4dc84eb17610ac96e6e7bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 18/76] fix: updates of a step set back the value of each
 system in the reverse order

---
 src/quanguru/classes/QPro.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 09efaec..c08460a 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -216,7 +216,8 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         for update in self._genericProtocol__updates:
             update.setup()
         self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
-        for update in self._genericProtocol__updates:
+        # in the reverse order, because a later update might change the same attribute
+        for update in reversed(self._genericProtocol__updates):
             update.setback()
         self._paramUpdatedToFalse()
         return self._paramBoundBase__matrix # pylint: disable=no-member
@@ -479,7 +480,7 @@ class Update(updateBase):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['__value', '__memoryValue', 'setup', 'setback', '_paramBoundProtocols']
+    __slots__ = ['__value', '__memoryValue', '_memoryValues', 'setup', 'setback', '_paramBoundProtocols']
 
     def __init__(self, **kwargs):
         super().__init__(_internal=kwargs.pop('_internal', False))
@@ -489,6 +490,8 @@ class Update(updateBase):
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
+        #: values of each system before the update
+        self._memoryValues = {}
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
     @property
@@ -526,12 +529,15 @@ class Update(updateBase):
         self._updateBase__function = func # pylint: disable=assigning-non-slot
 
     def _setup(self):
-        self.memoryValue = getattr(list(self.subSys.values())[0], self.key)
+        self._memoryValues = {sys: getattr(sys, self.key) for sys in self.subSys.values()}
+        self.memoryValue = self._memoryValues[list(self.subSys.values())[0]]
         if self._updateBase__function is None: # pylint: disable=no-member
             super()._runUpdate(self.value)
         else:
             self._updateBase__function(self) # pylint: disable=no-member
 
     def _setback(self):
-        if self.value != self.memoryValue:
+        if len(self._memoryValues) == 0:
             super()._runUpdate(self.memoryValue)
+        for sys, val in self._memoryValues.items():
+            setattr(sys, self.key, val)
-- 
2.43.0


From df1a3d8386dc69522a8936c05ea881d63cde0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 19/76] fix: default names skip the aliases in use, and an
 unknown rotation axis does not change the gate

---
 src/quanguru/classes/QGates.py |  2 +-
 src/quanguru/classes/base.py   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 2a1a6a2..54578a2 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -67,7 +67,6 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
 
     @rotationAxis.setter
     def rotationAxis(self, axStr):
-        setAttr(self, '_SpinRotation__rotationAxis', axStr)
         if axStr.lower() == 'x':
             self._rotationOp = operators.Jx
         elif axStr.lower() == 'y':
@@ -76,6 +75,7 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
             self._rotationOp = operators.Jz
         else:
             raise ValueError('unknown axis')
+        setAttr(self, '_SpinRotation__rotationAxis', axStr)
 
     def _rotMat(self, collapseOps = None, decayRates = None, openSys=False): #pylint:disable=unused-argument
         if ((self._paramBoundBase__matrix is None) or (self._paramBoundBase__paramUpdated is True)): # pylint: disable=no-member
diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 48ef44e..b08a69a 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -414,11 +414,11 @@ class named:
 
         :returns: the default name
         """
-        if self._internal is False:
-            name = self.clsLabel() + str(self.clsInstances(self._internal))
-        else:
-            name = '_' + self.clsLabel() + str(self.clsInstances(self._internal))
-        return name
+        prefix = self.clsLabel() if self._internal is False else '_' + self.clsLabel()
+        count = self.clsInstances(self._internal)
+        while prefix + str(count) in named._allInstacesDict: # might already be given as an alias
+            count += 1
+        return prefix + str(count)
 
     @property
     def name(self) -> aliasClass:
-- 
2.43.0


From f6371d386bc4744098eca7a2854cc90ee1b890e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 20/76] fix: Husimi function of ket states and density matrices

---
 src/quanguru/QuantumToolbox/quasiProbabilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/quasiProbabilities.py b/src/quanguru/QuantumToolbox/quasiProbabilities.py
index 93341ad..6a05437 100644
--- a/src/quanguru/QuantumToolbox/quasiProbabilities.py
+++ b/src/quanguru/QuantumToolbox/quasiProbabilities.py
@@ -28,7 +28,7 @@ r"""
 from numpy import ndarray # type: ignore
 import numpy as np # type: ignore
 from numpy import (zeros, array, arange, exp, real, conj, pi,
-                   copy, meshgrid, size, polyval, fliplr, conjugate) # type: ignore
+                   copy, meshgrid, size, polyval, conjugate) # type: ignore
 from scipy.special import factorial # type: ignore
 import scipy.linalg as la # type: ignore
 #from quanguru.QuantumToolbox.states as densityMatrix
@@ -142,7 +142,7 @@ def HusimiQ(state: Matrix, vec: ndOrList, g: float = np.sqrt(2)) -> ndarray:
     if state.shape[0] != state.shape[1]:
         qmat = _qfuncPure(state, amat)
     else:
-        d, v = la.eig(state.full())
+        d, v = la.eigh(state)
         # d[i]   = eigenvalue i
         # v[:,i] = eigenvector i
 
@@ -179,8 +179,8 @@ def _qfuncPure(psi: Matrix, alphaMat: ndarray) -> ndarray:
     """
 
     n = np.prod(psi.shape)
-    psi = psi.T
+    psi = np.ravel(psi)
 
-    qmat = abs(polyval(fliplr([psi / np.sqrt(factorial(arange(n)))])[0], conjugate(alphaMat))) ** 2
+    qmat = abs(polyval((psi / np.sqrt(factorial(arange(n))))[::-1], conjugate(alphaMat))) ** 2
 
     return real(qmat) * exp(-abs(alphaMat) ** 2) / pi
-- 
2.43.0


From f23b424e8ff812551ee80cd33635f28d26224ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 21/76] fix: heat current multiplies the vectorised density
 matrix by the Lindbladian

---
 src/quanguru/QuantumToolbox/thermodynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/thermodynamics.py b/src/quanguru/QuantumToolbox/thermodynamics.py
index 6662a13..d922571 100644
--- a/src/quanguru/QuantumToolbox/thermodynamics.py
+++ b/src/quanguru/QuantumToolbox/thermodynamics.py
@@ -129,6 +129,6 @@ def HeatCurrent(Lindbladian: Matrix, Hamiltonian: Matrix, denMat: Matrix) -> flo
     # TODO
     """
 
-    full = mat2Vec(Lindbladian * vec2Mat(denMat))
-    heatCurrent = real((full * Hamiltonian).tr())
+    full = vec2Mat(Lindbladian @ mat2Vec(denMat))
+    heatCurrent = real((full @ Hamiltonian).trace())
     return heatCurrent
-- 
2.43.0


From 64fcf8a183e1a1a5f31b2f0c1d276d8c85357ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:31 +0000
Subject: [PATCH 22/76] fix: drop the list of initial state inputs of composite
 systems when their sub-systems change

---
 src/quanguru/classes/QSystem.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 2790312..9e7aa8e 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -394,6 +394,18 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             self.superSys._updateDimension(self, oldDim*subSys.dimension, oldDim) # pylint: disable=protected-access
         return subSys
 
+    def _resetStateInputs(self):
+        r"""
+        The list of initial state inputs of a composite system (and of the ones that it is in) is no longer correct when
+        its sub-systems change. Each sub-system stores its own input, so the lists are not needed.
+        """
+        compSys = self
+        while compSys is not None:
+            if isinstance(compSys._initialStateInput, (list, tuple)):
+                compSys.simulation._initialStateInput = None
+                compSys.simulation._stateBase__initialState.value = None
+            compSys = compSys.superSys
+
     @addDecorator
     def addSubSys(self, subSys, **kwargs):
         r"""
@@ -421,6 +433,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         subSys._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
         super().addSubSys(subSys, **kwargs)
         self.delMatrices(_exclude=[])
+        self._resetStateInputs()
         return subSys
 
     def delMatrices(self, _exclude=[]): # pylint: disable=dangerous-default-value
@@ -491,6 +504,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
             subSys._dimsAfter = 1
             subSys._dimsBefore = 1
             subSys.delMatrices(_exclude=[])
+            self._resetStateInputs()
             _exclude.append(subSys)
             compSys = self.superSys
             while compSys is not None: # couplings of subSys in the outer composite systems
-- 
2.43.0


From 355032df208b67f359ef14957280627f8901760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:31 +0000
Subject: [PATCH 23/76] fix: creating the state of a composite system does not
 change the stored maximum input of its sub-systems

---
 src/quanguru/classes/QSimBase.py | 11 ++++++-----
 src/quanguru/classes/QSystem.py  |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 696a0ad..a74e174 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -240,6 +240,11 @@ class stateBase(computeBase):
         self._stateBase__initialStateInput.value = inp
 
     def _setGetMaxInput(self, inps):
+        self._maxInput = self._getMaxInput(inps)
+        return self._maxInput
+
+    @staticmethod
+    def _getMaxInput(inps):
         if isinstance(inps, (int, integer)) or (inps is None):
             inps = [inps]
         elif isinstance(inps, (list, tuple)):
@@ -251,11 +256,7 @@ class stateBase(computeBase):
         else:
             raise TypeError(f"Initial state input does not support type {type(inps)}")
 
-        if all(isinstance(i, (int, integer)) for i in inps):
-            self._maxInput = max(inps)
-        else:
-            self._maxInput = 1
-        return self._maxInput
+        return max(inps) if all(isinstance(i, (int, integer)) for i in inps) else 1
 
     def getResultByNameOrAlias(self, name):
         r"""
diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 9e7aa8e..8e2d1c9 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -157,7 +157,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         """
         if self._isComposite:
             inp = [qsys._initialStateInput for qsys in self.subSys.values()] if inp is None else inp
-            subSysStates = [qsys._createInitialState(inp[ind], qsys.simulation._setGetMaxInput(inp[ind])) for ind, qsys in enumerate(self.subSys.values())]  # pylint: disable=protected-access,line-too-long
+            subSysStates = [qsys._createInitialState(inp[ind], qsys.simulation._getMaxInput(inp[ind])) for ind, qsys in enumerate(self.subSys.values())]  # pylint: disable=protected-access,line-too-long
             initialState = tensorProd(*subSysStates) if not any(inst is None for inst in subSysStates) else None
         else:
             checkNotVal(inp, None, self.name + ' is not given an initial state')
-- 
2.43.0


From 4fae29ae974fd306346bd3e78233bf4676cfb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 24/76] fix: setting a time parameter breaks only the bound of
 this parameter

---
 src/quanguru/classes/QSimBase.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index a74e174..c433dd0 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -49,15 +49,11 @@ def setAttr(obj: paramBoundBase, attrStr: str, val: Any) -> None:
 def setAttrParam(obj: paramBoundBase, attrStr: str, val: Any) -> None:
     r"""
     a customized setattr that changes the value stored as the ``value`` attribute of a _parameter object.
-    The value (and _paramUpdated) is changed, if the new value is different than the old/existing. In any case, it
-    breaks existing timeBase bounds (bound between :class:`~Simulation` instances).
+    The value (and _paramUpdated) is changed, if the new value is different than the old/existing. This breaks the bound
+    of this particular _parameter, but not of the others, so the changes in the bound :class:`~Simulation` still matter.
     Especially useful for multi parameter sweeps (see :class:`~_sweep`).
     """
     oldVal = getattr(obj, attrStr).value
-    if obj._timeBase__bound is not None:
-        obj._timeBase__bound._paramBoundBase__paramBound.pop(obj.name, None)
-        obj._timeBase__bound = None
-
     if val != oldVal:
         getattr(obj, attrStr).value = val
         setattr(obj, '_paramUpdated', True)
-- 
2.43.0


From 44b3a90c399a9a9f8b7e03c7bc6a76c6c9e1e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 25/76] fix: step size follows from the total time when the
 step count is set first

---
 src/quanguru/classes/QSimBase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index c433dd0..b98931f 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -330,7 +330,8 @@ class timeBase(stateBase):
     def totalTime(self):
         r"""
         gets and sets ``_timeBase__totalTime.value``, and also sets the ``_timeBase__stepCount.value``
-        conditioned on that ``stepSize`` is not ``None``. It also sets
+        conditioned on that ``stepSize`` is not ``None`` (or the ``stepSize``, if only the ``stepCount`` is set).
+        It also sets
         :meth:`_paramUpdated <quanguru.classes.computeBase.paramBoundBase._paramUpdated>` to ``True``. Additionally to
         these, it sets ``_timeBase__stepSize._value`` to ``_timeBase__stepSize._bound._value``, if
         ``_timeBase__stepSize._bound`` is not ``None or False``. This is introduced to provide a flexible
@@ -346,6 +347,8 @@ class timeBase(stateBase):
         setAttrParam(self, '_timeBase__totalTime', fTime)
         if self.stepSize is not None:
             self._timeBase__stepCount.value = int((fTime//self.stepSize) + 1) # pylint: disable=assigning-non-slot
+        elif self._timeBase__stepCount.value is not None: # stepCount is set before the totalTime
+            self._timeBase__stepSize.value = fTime/self._timeBase__stepCount.value # pylint: disable=assigning-non-slot
 
     @property
     def stepCount(self):
-- 
2.43.0


From 4020156f107518caeb35d25662278dbac8f7fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 26/76] fix: explicitly set time parameters do not follow the
 inherited ones, also when the values are the same

---
 src/quanguru/classes/QSimBase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index b98931f..23691b0 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -49,13 +49,13 @@ def setAttr(obj: paramBoundBase, attrStr: str, val: Any) -> None:
 def setAttrParam(obj: paramBoundBase, attrStr: str, val: Any) -> None:
     r"""
     a customized setattr that changes the value stored as the ``value`` attribute of a _parameter object.
-    The value (and _paramUpdated) is changed, if the new value is different than the old/existing. This breaks the bound
+    The _paramUpdated is changed, if the new value is different than the old/existing. In any case, this breaks the bound
     of this particular _parameter, but not of the others, so the changes in the bound :class:`~Simulation` still matter.
     Especially useful for multi parameter sweeps (see :class:`~_sweep`).
     """
     oldVal = getattr(obj, attrStr).value
+    getattr(obj, attrStr).value = val # explicitly set values are kept, also when the same value is inherited until now
     if val != oldVal:
-        getattr(obj, attrStr).value = val
         setattr(obj, '_paramUpdated', True)
 
 class _parameter: # pylint: disable=too-few-public-methods
-- 
2.43.0


From 8d85dd7c4d41fe8526d4efa1017dfb8dcf6eac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 27/76] fix: every evolution of a simulation starts from time
 zero

---
 src/quanguru/classes/modularSweep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 6cc52d0..04e2403 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -68,6 +68,8 @@ def parallelTimeEvol(qSim, ind):
 # These two functions, respectively, run Sweep and timeDependent (sweep) parameter updates
 # In the timeDependet case, evolFunc of first function is the second function
 def _runSweepAndPrep(qSim, ind):
+    # every evolution starts from time zero, i.e. not from the end of the previous one
+    qSim._Simulation__index = -1 # pylint: disable=protected-access
     if len(qSim.Sweep.inds) > 0:
         qSim.Sweep.runSweep(qSim.Sweep._indicesForSweep(ind, *qSim.Sweep.inds))
 
-- 
2.43.0


From e1d12b2b93d32676310de735538b5a275d0be160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 28/76] fix: setting the step count re-creates unitaries also
 when the count is the same as the calculated one

---
 src/quanguru/classes/QSimBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 23691b0..f61d07e 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -377,7 +377,8 @@ class timeBase(stateBase):
             self._timeBase__totalTime._value = self._timeBase__totalTime._bound._value# pylint: disable=protected-access
         setAttrParam(self, '_timeBase__stepCount', num)
         if self.totalTime is not None:
-            self._timeBase__stepSize.value = self.totalTime/num # pylint: disable=assigning-non-slot
+            # this might change also when the stepCount is the same, e.g. if it was calculated by its getter
+            setAttrParam(self, '_timeBase__stepSize', self.totalTime/num)
 
     @property
     def stepSize(self):
-- 
2.43.0


From 7bdf6e1fd87c2c0e563af14346281173efda61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 29/76] fix: explicitly set time parameters are kept when an
 object is added to a simulation or protocol

---
 src/quanguru/classes/QSimBase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index f61d07e..30aa888 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -480,11 +480,13 @@ class timeBase(stateBase):
             bounding = True
             for ind, key in enumerate(keys):
                 if getattr(self, key)._bound is False: # pylint: disable=protected-access
-                    if getattr(other, key)._value is not None: # pylint: disable=protected-access
+                    # stepCount is calculated from the others, if the stepSize is given
+                    derived = (ind == 2) and (self._timeBase__stepSize._bound is False) # pylint: disable=protected-access
+                    if (getattr(other, key)._value is not None) and (not derived): # pylint: disable=protected-access
                         setattr(self, keysProp[ind], getattr(self, key)._value) # pylint: disable=protected-access
 
                     if bounding:
-                        for i, k in enumerate(keys):
+                        for i, k in ((1, keys[1]), (0, keys[0]), (2, keys[2])):
                             if ((getattr(self, k)._bound is None) and # pylint: disable=protected-access # noqa: W504
                                     (getattr(other, k)._value is not None)): # pylint: disable=protected-access
                                 setattr(self, keysProp[i], getattr(other, k)._value) # pylint: disable=protected-access
@@ -493,7 +495,7 @@ class timeBase(stateBase):
 
             for key in (*keys, *params, '_timeBase__samples'):
                 try:
-                    if ((getattr(self, key)._bound is None) or re): # pylint: disable=protected-access
+                    if ((getattr(self, key)._bound is None) or (re and (getattr(self, key)._bound is not False))): # pylint: disable=protected-access
                         getattr(self, key)._bound = getattr(other, key) # pylint: disable=protected-access
                 except AttributeError:
                     print('not bounding', key)
-- 
2.43.0


From 3f88ac91700f7dee570008803b8d802af4a8833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 30/76] fix: binding time parameters re-creates unitaries, and
 a calculated step count does not change the step size

---
 src/quanguru/classes/QSimBase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 30aa888..d30c1f3 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -480,8 +480,9 @@ class timeBase(stateBase):
             bounding = True
             for ind, key in enumerate(keys):
                 if getattr(self, key)._bound is False: # pylint: disable=protected-access
-                    # stepCount is calculated from the others, if the stepSize is given
-                    derived = (ind == 2) and (self._timeBase__stepSize._bound is False) # pylint: disable=protected-access
+                    # stepCount is calculated from the others, if the stepSize or both of the others are given
+                    derived = (ind == 2) and ((self._timeBase__stepSize._bound is False) or # pylint: disable=protected-access # noqa: W504
+                                              (None not in (self.stepSize, self.totalTime)))
                     if (getattr(other, key)._value is not None) and (not derived): # pylint: disable=protected-access
                         setattr(self, keysProp[ind], getattr(self, key)._value) # pylint: disable=protected-access
 
@@ -499,6 +500,7 @@ class timeBase(stateBase):
                         getattr(self, key)._bound = getattr(other, key) # pylint: disable=protected-access
                 except AttributeError:
                     print('not bounding', key)
+            self._paramUpdated = True # values from the other might be different
 
     def delMatrices(self, _exclude=[]): # pylint: disable=dangerous-default-value
         if self not in _exclude:
-- 
2.43.0


From 5c76290c59eebd999c91056d20b66c9c5a35bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 31/76] fix: time of the time-dependent terms is the time of
 the simulation that is run, and sweeps of a protocol are prepared

---
 src/quanguru/classes/QPro.py         |  8 +++++++-
 src/quanguru/classes/QSim.py         | 10 +++++++---
 src/quanguru/classes/modularSweep.py | 12 +++++++++++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index c08460a..f4e05a9 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -194,6 +194,11 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             self.simulation._bound(supSys.simulation) # pylint: disable=protected-access
         self.simulation._qBase__subSys[self] = self.superSys # pylint: disable=protected-access
 
+    @QSimComp._paramUpdated.getter # pylint: disable=no-member
+    def _paramUpdated(self):# pylint: disable=invalid-overridden-method
+        # sweeps of the timeDependency change their parameters every time the unitary is created
+        return self._paramBoundBase__paramUpdated or (len(self.timeDependency.sweeps) > 0) # pylint: disable=no-member
+
     def unitary(self):
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
@@ -230,6 +235,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             lc = 1
             td = False
             if len(self.timeDependency.sweeps) > 0:
+                self.timeDependency.prepare()
                 lc = self.timeDependency.indMultip
                 td = True
 
@@ -278,7 +284,7 @@ class qProtocol(genericProtocol):
             if subS._paramUpdated:
                 self._paramBoundBase__paramUpdated = True # pylint: disable=assigning-non-slot
                 break
-        return self._paramBoundBase__paramUpdated # pylint: disable=no-member
+        return genericProtocol._paramUpdated.fget(self)
 
     @property
     def steps(self):
diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index c4721d0..8cd1e45 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -30,7 +30,7 @@ from .base import _recurseIfList, named
 from .QSimBase import timeBase
 from .QSweep import Sweep
 from .modularSweep import runSimulation
-from .modularSweep import timeEvolBase
+from .modularSweep import timeEvolBase, _runningSims
 # pylint: disable = cyclic-import
 
 class Simulation(timeBase):
@@ -109,10 +109,14 @@ class Simulation(timeBase):
     def _currentTime(self):
         r"""
         Returns the current time in time evolution, which is equal to the current number of steps in the evolution times
-        the step size.
+        the step size. During a run, this is the time of the simulation that is run, also for the simulations of the
+        systems and protocols in it.
         """
         try:
-            if isinstance(self._timeBase__bound, Simulation): # pylint: disable=no-member
+            running = _runningSims[-1] if len(_runningSims) > 0 else None
+            if ((running is not None) and (running is not self)):
+                time = running._currentTime
+            elif ((running is None) and isinstance(self._timeBase__bound, Simulation)): # pylint: disable=no-member
                 time = self._timeBase__bound._currentTime # pylint: disable=no-member
             else:
                 time = self.stepSize*(self.__index+1)
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 04e2403..a7d0fef 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -65,9 +65,19 @@ def parallelTimeEvol(qSim, ind):
     _runSweepAndPrep(qSim, ind)
     return qSim.qRes._copyAllResBlank() # pylint: disable=protected-access
 
+#: simulations that are being run, the last one gives the time for the time-dependent terms of all the systems in it
+_runningSims = []
+
+def _runSweepAndPrep(qSim, ind):
+    _runningSims.append(qSim)
+    try:
+        _sweepAndEvolve(qSim, ind)
+    finally:
+        _runningSims.pop()
+
 # These two functions, respectively, run Sweep and timeDependent (sweep) parameter updates
 # In the timeDependet case, evolFunc of first function is the second function
-def _runSweepAndPrep(qSim, ind):
+def _sweepAndEvolve(qSim, ind):
     # every evolution starts from time zero, i.e. not from the end of the previous one
     qSim._Simulation__index = -1 # pylint: disable=protected-access
     if len(qSim.Sweep.inds) > 0:
-- 
2.43.0


From 6aa81eb161bd42816753dc3cfe04f7239bdb1568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 32/76] fix: alias dictionaries created or merged from other
 mappings treat the equal keys as the same key

---
 src/quanguru/classes/base.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index b08a69a..fa4c764 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -225,6 +225,28 @@ class aliasDict(dict):
 
     NOTE no explicit tests for most of the extended methods, be careful in modifications.
     """
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__()
+        self.update(*args, **kwargs)
+
+    def __or__(self, other: Mapping) -> "aliasDict":
+        if not isinstance(other, dict):
+            return NotImplemented
+        new = self.copy()
+        new.update(other)
+        return new
+
+    def __ror__(self, other: Mapping) -> "aliasDict":
+        if not isinstance(other, dict):
+            return NotImplemented
+        new = type(self)(other)
+        new.update(self)
+        return new
+
+    def __ior__(self, other: Mapping) -> "aliasDict":
+        self.update(other)
+        return self
+
     def __getitem__(self, k: Hashable) -> Any:
         r"""
         Gets the value from the dictionary for a given key or any of the keys that is equal to the given key.
-- 
2.43.0


From dd3f3780d1cf9fb4fb3506aed131fa29ef632543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 33/76] fix: look-up of the name of a deleted object raises the
 documented error instead of returning None

---
 src/quanguru/classes/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index fa4c764..1596562 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -415,9 +415,10 @@ class named:
         """
         if isinstance(name, named):
             return name
-        obj = checkNotVal(self._allInstaces.get(name), None,
-                          f"No object with the given name/alias {name} is found!")
-        return obj if isinstance(obj, named) else obj()
+        obj = self._allInstaces.get(name)
+        if isinstance(obj, weakref.ref):
+            obj = obj() # None, if the object is deleted
+        return checkNotVal(obj, None, f"No object with the given name/alias {name} is found!")
 
     def _incrementInstances(self) -> None:
         r"""
-- 
2.43.0


From 3b7589b47146f20fa4854c7f48c52f4b630e958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 34/76] fix: copies of a system keep the time dependency of its
 terms

---
 src/quanguru/classes/QSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 8e2d1c9..72b954c 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -743,7 +743,8 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 qSystems = newSys
             else:
                 qSystems = [newSystems[oldSystems.index(qsys)] for qsys in ter.qSystem]
-            newSys.createTerm(qSystem=qSystems, operator=ter.operator, frequency=ter.frequency, order=ter.order)
+            newSys.createTerm(qSystem=qSystems, operator=ter.operator, frequency=ter.frequency, order=ter.order,
+                              timeDependency=ter.timeDependency)
         if not self._isComposite:
             newSys.dimension = self.dimension#pylint:disable=assigning-non-slot
             newSys._inpCoef = self._inpCoef # pylint: disable=protected-access,assigning-non-slot
-- 
2.43.0


From 4bc5054c13b849b19e592ebb766b8d85a1316c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 35/76] fix: runs without resetting the results no longer mix
 up the results of the previous runs

---
 src/quanguru/classes/QRes.py | 23 +++++++++++++++++++++++
 src/quanguru/classes/QSim.py | 11 +++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QRes.py b/src/quanguru/classes/QRes.py
index 4101784..e79ed5c 100644
--- a/src/quanguru/classes/QRes.py
+++ b/src/quanguru/classes/QRes.py
@@ -250,6 +250,29 @@ class qResults(qResBase):
             qRes._qResBase__statesLast = defaultdict(list)
             qRes._qResBase__calculated = defaultdict(list)
 
+    def _setAside(self):
+        r"""
+        Method to move the results/states of the previous runs out of all the instances, so that they are not mixed with
+        (and re-shaped as) the ones of the next run. Returns a dictionary to be used with :meth:`~_putBack`.
+        """
+        previous = {}
+        for qRes in self.allResults.values():
+            previous[qRes] = (qRes._qResBase__results, qRes._qResBase__states)
+            qRes._qResBase__results = defaultdict(list)
+            qRes._qResBase__states = defaultdict(list)
+        return previous
+
+    @staticmethod
+    def _putBack(previous):
+        r"""
+        Method to put the results/states moved by :meth:`~_setAside` back, except those that are replaced by new ones.
+        """
+        for qRes, (results, states) in previous.items():
+            for key, val in results.items():
+                qRes._qResBase__results.setdefault(key, val)
+            for key, val in states.items():
+                qRes._qResBase__states.setdefault(key, val)
+
     def _resetLast(self):
         r"""
         Method to reset the Last dictionaries only, and it is called before the time evolution to empty the Last. After
diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 8cd1e45..ee3c5c2 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -350,7 +350,8 @@ class Simulation(timeBase):
         coreCount: int
             Number of cores used for multiprocessing, uses `` (avaliable number of cores) - 1`` as default.
         resetRes: Boolean
-            If ``False``, does not delete the results from the previous run of the simulation. ``True`` by default.
+            If ``False``, does not delete the results from the previous runs, and the results (and states) that are stored
+            with the same name by the same object replace the previous ones. ``True`` by default.
         """
         if len(self.subSys.values()) == 0:
             self.addQSystems(self.superSys)
@@ -360,10 +361,16 @@ class Simulation(timeBase):
         for protocol in self.subSys.keys():
             protocol.prepare()
         self.Sweep.prepare()
+        previous = {}
         if resetRes:
             for qres in self.qRes.allResults.values():
                 qres._reset() # pylint: disable=protected-access
-        _poolMemory.run(self, p, coreCount)
+        else:
+            previous = self.qRes._setAside() # pylint: disable=protected-access
+        try:
+            _poolMemory.run(self, p, coreCount)
+        finally:
+            self.qRes._putBack(previous) # pylint: disable=protected-access
         for key, val in self.qRes.states.items():
             self.qRes.allResults[key]._qResBase__states[key] = val
         # TODO Test this
-- 
2.43.0


From e9f7c56cd5243b0831ac5999fd3dc4a7207cb94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 36/76] fix: dimensions given as NumPy integers are identities
 in tensor products and composite operators

---
 src/quanguru/QuantumToolbox/linearAlgebra.py | 2 +-
 src/quanguru/QuantumToolbox/operators.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/linearAlgebra.py b/src/quanguru/QuantumToolbox/linearAlgebra.py
index b3a39f9..6d2edd1 100644
--- a/src/quanguru/QuantumToolbox/linearAlgebra.py
+++ b/src/quanguru/QuantumToolbox/linearAlgebra.py
@@ -272,7 +272,7 @@ def tensorProd(*args: Matrix) -> Matrix:
     """
 
     totalProd = args[0]
-    if isinstance(totalProd, int):
+    if isinstance(totalProd, (int, np.integer)):
         totalProd = sp.identity(totalProd, format="csc")
     return sp.kron(totalProd, tensorProd(*args[1:]), format='csc') if len(args) > 1 else totalProd
 
diff --git a/src/quanguru/QuantumToolbox/operators.py b/src/quanguru/QuantumToolbox/operators.py
index 60f729a..0b68de6 100644
--- a/src/quanguru/QuantumToolbox/operators.py
+++ b/src/quanguru/QuantumToolbox/operators.py
@@ -963,7 +963,7 @@ def compositeOp(operator: Matrix, dimB: int = 1, dimA: int = 1) -> Matrix:
 
     """
 
-    return tensorProd(*[a for a in [dimB, operator, dimA] if ((not isinstance(a, int)) or (a > 1))])
+    return tensorProd(*[a for a in [dimB, operator, dimA] if ((not isinstance(a, (int, np.integer))) or (a > 1))])
 
 def operatorPow(op: Callable, dim: int, power: int, sparse: bool = True) -> Matrix:
     r"""
-- 
2.43.0


From 3ad0ff5a775fcccdf979affe05b68bd2ca6b3342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 37/76] fix: partial trace with an empty list of kept
 sub-systems is the trace

---
 src/quanguru/QuantumToolbox/linearAlgebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/linearAlgebra.py b/src/quanguru/QuantumToolbox/linearAlgebra.py
index 6d2edd1..372e46f 100644
--- a/src/quanguru/QuantumToolbox/linearAlgebra.py
+++ b/src/quanguru/QuantumToolbox/linearAlgebra.py
@@ -353,7 +353,7 @@ def partialTrace(keep: ndOrListInt, dims: ndOrListInt, state: Matrix) -> ndarray
     if rho.shape[0] != rho.shape[1]:
         rho = (rho @ hc(rho))
 
-    keep = np.asarray(keep)
+    keep = np.asarray(keep, dtype=int)
     dims = np.asarray(dims)
     Ndim = dims.size
     Nkeep = np.prod(dims[keep])
-- 
2.43.0


From 56a2c1d44fdd7433f8c52038effa40874ebc6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 38/76] fix: tuples of operators can be used as collapse
 operators

---
 src/quanguru/QuantumToolbox/evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index aa3ac4b..65c4926 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -147,12 +147,12 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
 
     if isinstance(collapseOperators, list):
         for idx, collapseOperator in enumerate(collapseOperators):
-            if collapseOperator.shape[0] == dimensionOfHilbertSpace:
+            if isinstance(collapseOperator, tuple):
+                collapsePart = dissipator(collapseOperator[0], collapseOperator[1], _double=_double)
+            elif collapseOperator.shape[0] == dimensionOfHilbertSpace:
                 collapsePart = dissipator(collapseOperator, identity=identity, _double=_double)
             elif collapseOperator.shape[0] == (dimensionOfHilbertSpace**2):
                 collapsePart = collapseOperator
-            elif isinstance(collapseOperator, tuple):
-                collapsePart = dissipator(collapseOperator[0], collapseOperator[1], _double=_double)
             else:
                 raise ValueError("Dimension mismatch")
 
-- 
2.43.0


From a98e69d24f6be08b52a7a1d37e5d4b087b4ac3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 39/76] fix: Liouvillian of dense matrices is an array

---
 src/quanguru/QuantumToolbox/evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/evolution.py b/src/quanguru/QuantumToolbox/evolution.py
index 65c4926..49eca7e 100644
--- a/src/quanguru/QuantumToolbox/evolution.py
+++ b/src/quanguru/QuantumToolbox/evolution.py
@@ -36,6 +36,7 @@ r"""
 
 from typing import Callable, List, Optional
 
+import numpy as np # type: ignore
 import scipy.sparse as sp # type: ignore
 import scipy.linalg as linA # type: ignore
 import scipy.sparse.linalg as slinA # type: ignore
@@ -160,7 +161,7 @@ def Liouvillian(Hamiltonian: Optional[Matrix] = None, collapseOperators: Optiona
                 liouvillian += collapsePart
             elif len(decayRates) != 0:
                 liouvillian += decayRates[idx]*collapsePart
-    return liouvillian
+    return liouvillian if sp.issparse(liouvillian) else np.asarray(liouvillian)
 
 def LiouvillianExp(Hamiltonian: Optional[Matrix] = None, timeStep: float = 1.0,# pylint: disable=dangerous-default-value,unsubscriptable-object # noqa: E501
                    collapseOperators: Optional[List] = None, decayRates: Optional[List] = None,
-- 
2.43.0


From b8e8fc861fa0c9c5cb26fa815427c50fdd03b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 40/76] fix: eigenvector distribution of the symplectic class
 is normalised

---
 src/quanguru/QuantumToolbox/rmtDistributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/rmtDistributions.py b/src/quanguru/QuantumToolbox/rmtDistributions.py
index be93ed8..5d89b4e 100644
--- a/src/quanguru/QuantumToolbox/rmtDistributions.py
+++ b/src/quanguru/QuantumToolbox/rmtDistributions.py
@@ -67,7 +67,7 @@ def EigenVectorDist(x: float, dim: int, beta: int = 1) -> float:
         dist = (1 - x)**(dim - 2)
     elif beta == 4:
         coef = (dim - 1)*(dim - 2)
-        dist = x*((1-x)**(dim - 1))
+        dist = x*((1-x)**(dim - 3))
     val = coef*dist
     if val > 10**30:
         val = 10**30
-- 
2.43.0


From c138b4a63ae19658c1c821899352d0a37219a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 41/76] fix: Wigner function is normalised

---
 src/quanguru/QuantumToolbox/quasiProbabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/quasiProbabilities.py b/src/quanguru/QuantumToolbox/quasiProbabilities.py
index 6a05437..f907e77 100644
--- a/src/quanguru/QuantumToolbox/quasiProbabilities.py
+++ b/src/quanguru/QuantumToolbox/quasiProbabilities.py
@@ -105,7 +105,7 @@ def Wigner(rho: Matrix, vec: ndOrList, g: float = np.sqrt(2)) -> ndarray:
             temp = copy(Wlist[n])
             Wlist[n] = temp2
             W += 2 * real(rho[m, n] * Wlist[n])
-    return W * g ** 2
+    return 0.5 * W * g ** 2
 
 
 def HusimiQ(state: Matrix, vec: ndOrList, g: float = np.sqrt(2)) -> ndarray:
-- 
2.43.0


From 0625cedd1383fa09d1b5d21734af174267fc71e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 42/76] fix: standard deviation in eigenstates is zero instead
 of nan

---
 src/quanguru/QuantumToolbox/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/QuantumToolbox/functions.py b/src/quanguru/QuantumToolbox/functions.py
index 16620aa..4dc1889 100644
--- a/src/quanguru/QuantumToolbox/functions.py
+++ b/src/quanguru/QuantumToolbox/functions.py
@@ -450,7 +450,11 @@ def _expectationColArr(operator: Matrix, states: ndarray) -> floatList:
 def standardDev(operator: Matrix, state: Matrix, expect: bool = False) -> float:
     expSq = (expectation(operator, state))
     SqExp = expectation(_matPower(operator, 2), state)
-    return np.sqrt(SqExp - (expSq**2)) if not expect else (np.sqrt(SqExp - (expSq**2)), expSq)
+    variance = SqExp - (expSq**2)
+    if np.isrealobj(variance):
+        # rounding errors make the variance of an eigenstate negative
+        variance = max(variance, 0.0)
+    return np.sqrt(variance) if not expect else (np.sqrt(variance), expSq)
 
 def spectralNorm(operator: Matrix) -> Tuple:
     vals, _ = sortedEigens(hc(operator)@operator)
-- 
2.43.0


From d497d92a1b173dc5307e8102d7aee78d254d5292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 43/76] fix: CSV files are written for all types of numbers

---
 src/quanguru/extensions/saveReadCSV.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index a66891b..9cf08c2 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -31,6 +31,7 @@ r"""
 
 import csv
 from datetime import datetime
+from numbers import Number
 import numpy as np
 from ._helpers import makeDir
 
@@ -65,7 +66,7 @@ def saveCSV(data, path=None, fileName=None):
         if isinstance(data[0], (list, np.ndarray)):
             for ind in range(len(data)):
                 csvWriter.writerow([data[ind][ind2] for ind2 in range(len(data[ind]))])
-        elif isinstance(data[0], (float, int, np.complex128)):
+        elif isinstance(data[0], Number):
             csvWriter.writerow([data[ind2] for ind2 in range(len(data))])
 
     return path
@@ -103,9 +104,9 @@ def _recursiveSaveList(data, path=None, fileName=None):
         if isinstance(data[0][0], (list, np.ndarray)):
             for ind in range(len(data)): #pylint:disable=consider-using-enumerate
                 _recursiveSaveList(data[ind], path=path, fileName=fileName+str(ind))
-        elif isinstance(data[0][0], (float, int, np.complex128)):
+        elif isinstance(data[0][0], Number):
             saveCSV(data, path=path, fileName=fileName)
-    elif isinstance(data[0], (float, int, np.complex128)):
+    elif isinstance(data[0], Number):
         saveCSV(data, path=path, fileName=fileName)
 
 def _saveDictToCSV(data, path=None, fileName=''):
-- 
2.43.0


From 672fbb2c89f4d0da3956f2e21a11753874b057b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 44/76] fix: averaged results are saved into CSV

---
 src/quanguru/extensions/saveReadCSV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/extensions/saveReadCSV.py b/src/quanguru/extensions/saveReadCSV.py
index 9cf08c2..7a8611e 100644
--- a/src/quanguru/extensions/saveReadCSV.py
+++ b/src/quanguru/extensions/saveReadCSV.py
@@ -111,7 +111,7 @@ def _recursiveSaveList(data, path=None, fileName=None):
 
 def _saveDictToCSV(data, path=None, fileName=''):
     for key, val in data.items():
-        _recursiveSaveList(val, path, fileName=fileName+key)
+        _recursiveSaveList([val] if isinstance(val, Number) else val, path, fileName=fileName+key)
 
 def saveQResCSV(qRes, path=None):
     results = qRes.allResults
-- 
2.43.0


From ec30f815a08c4843074f72f46671db31fdf018ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 45/76] fix: gates in open protocols multiply the density
 matrix by the unitary from both sides

---
 src/quanguru/classes/QGates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QGates.py b/src/quanguru/classes/QGates.py
index 54578a2..c2c7861 100644
--- a/src/quanguru/classes/QGates.py
+++ b/src/quanguru/classes/QGates.py
@@ -25,6 +25,7 @@ from .QPro import Gate
 from .QSimBase import setAttr
 from ..QuantumToolbox import evolution
 from ..QuantumToolbox import operators #pylint: disable=relative-beyond-top-level
+from ..QuantumToolbox.linearAlgebra import hc #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox import spinRotations #pylint: disable=relative-beyond-top-level
 
 class SpinRotation(Gate): # pylint: disable=too-many-ancestors
@@ -87,7 +88,7 @@ class SpinRotation(Gate): # pylint: disable=too-many-ancestors
                 flipOpN = operators.compositeOp(rotOp(sys[i+1].dimension, isDim=True),
                                                 sys[i+1]._dimsBefore, sys[i+1]._dimsAfter)
                 flipUn = evolution.Unitary(self.phase*self.angle*flipOpN) @ flipUn
-            self._paramBoundBase__matrix = evolution._prepostSO(flipUn) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipUn, hc(flipUn)) if (openSys or isinstance(collapseOps, list) or self._isOpen) else flipUn # pylint: disable=assigning-non-slot,line-too-long,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
@@ -118,7 +119,7 @@ class xGate(SpinRotation): # pylint: disable=too-many-ancestors
             flipOp = operators.compositeOp(rotOp(self.angle), sys[0]._dimsBefore, sys[0]._dimsAfter) # pylint: disable=no-member
             for i in range(len(sys)-1):
                 flipOp = operators.compositeOp(rotOp(self.angle), sys[i+1]._dimsBefore, sys[i+1]._dimsAfter) @ flipOp
-            self._paramBoundBase__matrix = evolution._prepostSO(flipOp) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
+            self._paramBoundBase__matrix = evolution._prepostSO(flipOp, hc(flipOp)) if openSys else flipOp # pylint: disable=assigning-non-slot,protected-access
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
-- 
2.43.0


From 03ff879d7c5364abd845d7556d6842184c12beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 46/76] fix: operator of a dissipator is re-created after
 dimension changes and can be replaced

---
 src/quanguru/classes/environment.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 000147e..9d40f6a 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -100,20 +100,18 @@ class dissipatorObj(_genericOpen):
 
     @property
     def jOperMatrix(self):
-        return self._paramBoundBase__matrix # pylint:disable=no-member
-
-    @jOperMatrix.setter
-    def jOperMatrix(self, jOpMat):
-        if ((jOpMat is None) or self._paramUpdated):
-            setAttr(self, '_paramBoundBase__matrix',
-                    compositeOp(self.jOper, dimA=self.superSys._dimsAfter, dimB=self.superSys._dimsBefore)) # pylint:disable=no-member
+        if (self._paramBoundBase__matrix is None) or self._paramBoundBase__paramUpdated: # pylint:disable=no-member
+            # the dimensions might have changed since the last call
+            self._paramBoundBase__matrix = compositeOp(self.jOper, dimA=self.superSys._dimsAfter, # pylint:disable=assigning-non-slot,no-member
+                                                       dimB=self.superSys._dimsBefore) # pylint:disable=no-member
             self._paramBoundBase__paramUpdated = False # pylint:disable=assigning-non-slot
+        return self._paramBoundBase__matrix # pylint:disable=no-member
 
     @jOper.setter
     def jOper(self, jop):
-        setAttr(self, '_dissipatorObj__operator', jop)
-        if self._paramUpdated:
-            self.jOperMatrix = None
+        # matrices cannot be compared with != as in setAttr
+        self._dissipatorObj__operator = jop # pylint:disable=assigning-non-slot
+        self._paramUpdated = True
 
 class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
     r"""
-- 
2.43.0


From 96a61a2525632a5af804cf53d5c4b0179743ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 47/76] fix: adding a dissipator to a protocol or a bath
 re-creates the unitaries

---
 src/quanguru/classes/environment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 9d40f6a..8b66c7b 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -85,6 +85,7 @@ class dissipatorObj(_genericOpen):
     def addToProtocol(self, protocol):
         protocol._genericProtocol__dissipator[self] = self.jRate #pylint:disable=protected-access
         self._paramBoundBase__paramBound[protocol.name] = protocol # pylint: disable=no-member
+        protocol._paramUpdated = True # pylint:disable=protected-access
 
     @property
     def jRate(self):
@@ -160,6 +161,7 @@ class thermalBath(_genericOpen): # pylint:disable=too-few-public-methods
         _genericOpen.subSys.fset(self, subS)
         subS._dissipatorObj__bath = self #pylint:disable=protected-access
         self._paramBoundBase__paramBound[subS.name] = subS # pylint: disable=no-member
+        subS._paramUpdated = True # the rate depends on the bath
 
     @dissipator.setter
     def dissipator(self, subS):
-- 
2.43.0


From 8909c52640c368467eee3bf85eba94de6688fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 48/76] fix: steps of open protocols include the dissipators of
 the protocol

---
 src/quanguru/classes/QPro.py | 46 +++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index f4e05a9..9ef9200 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -57,7 +57,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         cls.numberOfExponentiations += 1
         return cls.numberOfExponentiations
 
-    __slots__ = ['__currentState', '__inProtocol', '__fixed', '__ratio', '__updates', '__dissipator', '_openSys',
+    __slots__ = ['__currentState', '__inProtocol', '__fixed', '__ratio', '__updates', '__dissipator', '__usedDissipators', '_openSys',
                  '_getUnitary', 'timeDependency', '__identity', 'sampleStates', 'stepSample']
 
     def __init__(self, **kwargs):
@@ -101,6 +101,8 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self.timeDependency = Sweep(superSys=self)
         #: a dictionary to store the dissipator objects used in open-system simulations
         self.__dissipator = {}
+        #: operators and rates that are used in the existing matrix (None for closed systems)
+        self.__usedDissipators = None
         #: boolean to determine if it is an open-system simulation.
         self._openSys = False
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
@@ -209,14 +211,10 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def getUnitary(self, collapseOps = None, decayRates = None):
-        if collapseOps is None:
-            collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator.keys()]
-        else:
-            collapseOps = collapseOps + [ds.jOperMatrix for ds in self._dissipator.keys()]
-            decayRates = decayRates + [ds.jRate for ds in self._dissipator.keys()]
+        collapseOps, decayRates = self._addDissipators(collapseOps, decayRates)
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
+        self._checkUsedDissipators(collapseOps, decayRates)
 
         for update in self._genericProtocol__updates:
             update.setup()
@@ -227,6 +225,28 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         self._paramUpdatedToFalse()
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
+    def _addDissipators(self, collapseOps = None, decayRates = None):
+        if collapseOps is None:
+            collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
+            decayRates = None if not self._isOpen else [ds.jRate for ds in self._dissipator.keys()]
+        else:
+            collapseOps = collapseOps + [ds.jOperMatrix for ds in self._dissipator.keys()]
+            decayRates = decayRates + [ds.jRate for ds in self._dissipator.keys()]
+        return collapseOps, decayRates
+
+    def _checkUsedDissipators(self, collapseOps, decayRates):
+        # some of the dissipators belong to the protocols that contain self, and changes of those do not set
+        # _paramUpdated of self, so the matrix has to be re-created if it is created with different dissipators.
+        used = None if collapseOps is None else list(zip(collapseOps, decayRates))
+        old = self._genericProtocol__usedDissipators
+        if (used is None) or (old is None):
+            same = used is old
+        else:
+            same = len(used) == len(old) and all((u[0] is o[0]) and (u[1] == o[1]) for u, o in zip(used, old))
+        if not same:
+            self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
+            self._genericProtocol__usedDissipators = used # pylint: disable=assigning-non-slot
+
     def _paramUpdatedToFalse(self):
         self._paramBoundBase__paramUpdated = False # pylint: disable=assigning-non-slot
 
@@ -239,7 +259,7 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
                 lc = self.timeDependency.indMultip
                 td = True
 
-            unitary = self._identity(openSys=self._isOpen)
+            unitary = self._identity(openSys=self._isOpen or (collapseOps is not None))
             for ind in range(lc):
                 if td:
                     self.timeDependency.runSweep(self.timeDependency._indicesForSweep(ind, *self.timeDependency.inds))
@@ -352,7 +372,7 @@ class qProtocol(genericProtocol):
         return vals
 
     def _defCreateUnitary(self, collapseOps = None, decayRates = None):
-        unitary = self._identity(openSys=self._isOpen) # pylint: disable=no-member
+        unitary = self._identity(openSys=self._isOpen or (collapseOps is not None)) # pylint: disable=no-member
         for step in self.steps.values():
             vals = self._puValues(step, [])
             unitary = step.getUnitary(collapseOps, decayRates) @ unitary
@@ -393,8 +413,12 @@ class copyStep(qBase):
     def _paramUpdated(self, boolean):
         pass
 
-    def getUnitary(self, collapseOps = None, decayRates = None): #pylint:disable=unused-argument
-        self.superSys.unitary()
+    def getUnitary(self, collapseOps = None, decayRates = None):
+        if collapseOps is None:
+            self.superSys.unitary()
+        else:
+            # includes the dissipators of the protocol
+            self.superSys.getUnitary(collapseOps, decayRates)
         return self.superSys._hc if self.hc else self.superSys._paramBoundBase__matrix #pylint:disable=protected-access
 
     def unitary(self): #pylint:disable=unused-argument
-- 
2.43.0


From 1af0284270aa5649ff5bc8dd4239511776eaccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 49/76] fix: samples of steps are also evolved in open
 protocols and with the updates of the protocol, and steps are not reused
 outside of the updates

---
 src/quanguru/classes/QPro.py         | 31 ++++++++++++++++++++++------
 src/quanguru/classes/modularSweep.py | 27 +++++++++++++++++-------
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 9ef9200..1e22b54 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -216,15 +216,34 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
             self.superSys._timeDependency() # pylint: disable=no-member
         self._checkUsedDissipators(collapseOps, decayRates)
 
-        for update in self._genericProtocol__updates:
-            update.setup()
-        self._paramBoundBase__matrix = self._getUnitary(collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
-        # in the reverse order, because a later update might change the same attribute
-        for update in reversed(self._genericProtocol__updates):
-            update.setback()
+        self._paramBoundBase__matrix = self._callWithUpdates(self._getUnitary, collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
         self._paramUpdatedToFalse()
+        if len(self._genericProtocol__updates) > 0:
+            self._forgetSteps()
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
+    def _callWithUpdates(self, func, *args):
+        # calls the function while the updates are in effect, and the updates are also set back when an error is raised
+        done = []
+        try:
+            for update in self._genericProtocol__updates:
+                update.setup()
+                done.append(update)
+            return func(*args)
+        finally:
+            # in the reverse order, because a later update might change the same attribute
+            for update in reversed(done):
+                update.setback()
+
+    def _forgetSteps(self):
+        # matrices of the steps are created with the updated values, and they cannot be used outside of this protocol
+        for step in self.subSys.values():
+            step = step.superSys if isinstance(step, copyStep) else step
+            if isinstance(step, genericProtocol):
+                if not step.fixed:
+                    step._paramBoundBase__matrix = None # pylint: disable=protected-access
+                step._forgetSteps()
+
     def _addDissipators(self, collapseOps = None, decayRates = None):
         if collapseOps is None:
             collapseOps = None if not self._isOpen else [ds.jOperMatrix for ds in self._dissipator.keys()]
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index a7d0fef..8d7ba80 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -156,19 +156,32 @@ def timeEvolDefault(qSim, td):
                     qsystem._computeBase__compute(protocol.currentState) # pylint: disable=protected-access
                     calledFor.append(qsystem)
 
+def _evolveSamples(protocol, collapseOps=None, decayRates=None):
+    for step in protocol.steps.values():
+        for _ in range(step.simulation.samples):
+            if collapseOps is None:
+                protocol.currentState = step.unitary() @ protocol.currentState
+            else:
+                state = step.getUnitary(collapseOps, decayRates) @ mat2Vec(protocol.currentState)
+                protocol.currentState = vec2Mat(state)
+            protocol.sampleStates.append(protocol.currentState)
+    if len(protocol.updates) > 0:
+        protocol._forgetSteps() # pylint: disable=protected-access
+
 def timeEvolBase(qSim):
     for protocol in qSim.subSys.keys(): #pylint:disable=too-many-nested-blocks
         if protocol._isOpen: # pylint: disable=protected-access
-            state = mat2Vec(protocol.currentState)
-            state = protocol.unitary() @ state
-            protocol.currentState = vec2Mat(state)
+            protocol.sampleStates = []
+            if protocol.stepSample:
+                protocol._callWithUpdates(_evolveSamples, protocol, *protocol._addDissipators()) # pylint: disable=protected-access
+            else:
+                state = mat2Vec(protocol.currentState)
+                state = protocol.unitary() @ state
+                protocol.currentState = vec2Mat(state)
         else:
             protocol.sampleStates = []
             if protocol.stepSample:
-                for step in protocol.steps.values():
-                    for _ in range(step.simulation.samples):
-                        protocol.currentState = step.unitary() @ protocol.currentState
-                        protocol.sampleStates.append(protocol.currentState)
+                protocol._callWithUpdates(_evolveSamples, protocol) # pylint: disable=protected-access
             else:
                 protocol.currentState = protocol.unitary() @ protocol.currentState
         #protocol.sampleStates = []
-- 
2.43.0


From 4412be81e1b42758b9dee263bbae2a288e092612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 50/76] fix: an update used by a protocol and its step, or
 raising an exception, sets back the original values

---
 src/quanguru/classes/QPro.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 1e22b54..249f4fe 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -539,8 +539,9 @@ class Update(updateBase):
         self.setup = self._setup
         self.setback = self._setback
         self.__memoryValue = None
-        #: values of each system before the update
-        self._memoryValues = {}
+        #: values of each system before the update (a list, because the same update might be used by a protocol and also by
+        #: its steps)
+        self._memoryValues = []
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
     @property
@@ -578,15 +579,20 @@ class Update(updateBase):
         self._updateBase__function = func # pylint: disable=assigning-non-slot
 
     def _setup(self):
-        self._memoryValues = {sys: getattr(sys, self.key) for sys in self.subSys.values()}
-        self.memoryValue = self._memoryValues[list(self.subSys.values())[0]]
-        if self._updateBase__function is None: # pylint: disable=no-member
-            super()._runUpdate(self.value)
-        else:
-            self._updateBase__function(self) # pylint: disable=no-member
+        self._memoryValues.append({sys: getattr(sys, self.key) for sys in self.subSys.values()})
+        self.memoryValue = self._memoryValues[-1][list(self.subSys.values())[0]]
+        try:
+            if self._updateBase__function is None: # pylint: disable=no-member
+                super()._runUpdate(self.value)
+            else:
+                self._updateBase__function(self) # pylint: disable=no-member
+        except BaseException:
+            self._setback()
+            raise
 
     def _setback(self):
         if len(self._memoryValues) == 0:
             super()._runUpdate(self.memoryValue)
-        for sys, val in self._memoryValues.items():
-            setattr(sys, self.key, val)
+        else:
+            for sys, val in self._memoryValues.pop().items():
+                setattr(sys, self.key, val)
-- 
2.43.0


From 8faf264146db6d70ae98e33854a3cddab952b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 51/76] fix: an exception in a multi-processing run does not
 leave the processes running

---
 src/quanguru/classes/QSim.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index ee3c5c2..b6ccf2b 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -428,9 +428,16 @@ class _poolMemory: # pylint: disable=too-few-public-methods
                 _pool = multiprocessing.Pool(processes=_poolMemory.coreCount) #pylint:disable=consider-using-with
             else:
                 _pool = None
-        runSimulation(qSim, _pool)
-
-        if _pool is not None:
-            _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
-            _pool.close()
-            _pool.join()
+        if _pool is None:
+            runSimulation(qSim, _pool)
+        else:
+            try:
+                runSimulation(qSim, _pool)
+                _poolMemory.coreCount = _pool._processes # pylint: disable=protected-access
+                _pool.close()
+            except BaseException:
+                # does not leave the processes running
+                _pool.terminate()
+                raise
+            finally:
+                _pool.join()
-- 
2.43.0


From d2353311612015a2dfc0ee1f786e219a83263e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 52/76] fix: initial state of a composite whose sub-systems
 have their states before it is created

---
 src/quanguru/classes/QSimBase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index d30c1f3..e222e16 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -175,6 +175,11 @@ class stateBase(computeBase):
         """
         self._named__setKwargs(**kwargs) # pylint: disable=no-member
 
+    def _canCreateState(self):
+        # an explicitly created simulation does not have a super-system, and it might not be given an initial state
+        return ((self._stateBase__initialState.value is not None) or (self._initialStateSystem is not None) or
+                (self.superSys is not None))
+
     @property
     def initialStateSystem(self):
         if self._initialStateSystem is None:
@@ -208,7 +213,8 @@ class stateBase(computeBase):
             #  after re-structuring the protocol, this should no longer rely of .dimension of protocol,
             #  which returns 1 and causes this to evaluate everytime anyway.
             #  labels: bug, enhancement
-            if isinstance(self._stateBase__initialState._bound, _parameter): # pylint: disable=protected-access
+            if (isinstance(self._stateBase__initialState._bound, _parameter) and # pylint: disable=protected-access
+                self._timeBase__bound._canCreateState()): # pylint: disable=no-member, protected-access
                 # might seem redundant, but required to make sure that bound creates its initial state by calling
                 # _createState
                 self._stateBase__initialState._value = self._timeBase__bound.initialState # pylint: disable=no-member
-- 
2.43.0


From 120fa5bd09461e51c887b5d40cfc36c9f3fd6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 53/76] fix: every circular addition of sub-systems is rejected
 before anything changes

---
 src/quanguru/classes/QSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 72b954c..3f2a6b3 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -416,7 +416,8 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         updates of the sub-system also sets the _paramUpdated of self to True.
         Note that composite systems can contain other composite systems as sub-systems.
         """
-        if self in subSys.subSys.values():
+        checkCorType(subSys, QuantumSystem, f'sub-system of {self.name}')
+        if (subSys is self) or subSys._hasInSubs(self): # pylint:disable=protected-access
             raise ValueError(f"{self.name} is a subsystem of {subSys.name}. " +
                              f"Cannot add {subSys.name} as subsystem to {self.name}. " +
                              "Circular subsystem addition is not allowed.")
-- 
2.43.0


From 5c8668b2c2f424d4066dda4a30b9edbaaca1b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 54/76] fix: removing a system from itself or from its own
 sub-systems does not remove couplings

---
 src/quanguru/classes/QSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 3f2a6b3..01ac8dc 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -524,7 +524,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                     if self.superSys is not None:
                         self.superSys._removeSubSysExc(subSys, _exclude=_exclude) #pylint:disable=protected-access
 
-        if subSys is not self:
+        if (subSys is not self) and (not subSys._hasInSubs(self)): # pylint:disable=protected-access
             termObjs = list(self.terms.values())
             for ter in termObjs:
                 ter._removeTermIfQSysInList(self, subSys)#pylint:disable=protected-access
-- 
2.43.0


From 28a06d3d7c1d26a1cd756413054f4d543b1f9bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 55/76] fix: rejected initial state inputs do not change the
 states

---
 src/quanguru/classes/QSimBase.py |  5 +++--
 src/quanguru/classes/QSystem.py  | 18 +++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index e222e16..63d2853 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -225,9 +225,10 @@ class stateBase(computeBase):
 
     @initialState.setter # pylint: disable=no-member
     def initialState(self, inp):
+        # the state is created first, so that nothing changes for unsupported inputs
+        state = self.initialStateSystem._createState(inp, self._getMaxInput(inp)) # pylint: disable=protected-access, no-member, line-too-long # noqa: E501
         self._initialStateInput = inp # pylint: disable=no-member
-        initSys = self.initialStateSystem
-        self._stateBase__initialState.value = initSys._createState(inp, self._maxInput) # pylint: disable=protected-access, no-member, line-too-long # noqa: E501
+        self._stateBase__initialState.value = state # pylint: disable=no-member
 
     @property
     def _initialStateInput(self):
diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 01ac8dc..0121d95 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -178,6 +178,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         checkNotVal(self._QuantumSystem__compSys,None,f'Type of {self.name} is ambiguous. Single and composite systems'+
                                                    ' handle initial state inputs differently, so you need to set other'+
                                                    f' relevant parameters to determine the type of {self.name}')
+        self._checkStateInput(inp)
         compSys = self.superSys
         while compSys is not None: # every enclosing composite system has to re-create its state from its sub-systems
             compSys.simulation._stateBase__initialState.value = None # breaks the bound to the other _parameter
@@ -187,13 +188,24 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
 
         if self._isComposite:
             if not isinstance(inp, (ndarray, spmatrix)):
-                checkCorType(inp, (list, tuple), 'Composite state initial state input')
-                checkVal(len(inp), len(self.subSys),f'Number of inputs ({len(inp)}) to initial state should be the'+
-                                                   f' same as number of sub-system ({len(self.subSys)}) of {self.name}')
                 for ind, qsys in enumerate(self.subSys.values()):
                     qsys.initialState = inp[ind]
         self.simulation.initialState = inp # pylint: disable=no-member, protected-access
 
+    def _checkStateInput(self, inp):
+        r"""
+        Raises an error for an unsupported input (also of a nested sub-system) before anything is changed.
+        """
+        if self._isComposite and (not isinstance(inp, (ndarray, spmatrix))):
+            checkCorType(inp, (list, tuple), 'Composite state initial state input')
+            checkVal(len(inp), len(self.subSys),f'Number of inputs ({len(inp)}) to initial state should be the'+
+                                               f' same as number of sub-system ({len(self.subSys)}) of {self.name}')
+            for ind, qsys in enumerate(self.subSys.values()):
+                qsys._checkStateInput(inp[ind]) # pylint: disable=protected-access
+        else:
+            checkVal(inp is None, False, self.name + ' is not given an initial state')
+            self._createInitialState(inp, self.simulation._getMaxInput(inp)) # pylint: disable=protected-access
+
     @property
     def _subSysHamiltonian(self):
         r"""
-- 
2.43.0


From 2c14ac25efd2daa5eff9a0844525578d1f6a38fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 56/76] fix: protocols cannot be their own steps, and rejected
 steps do not change the protocol

---
 src/quanguru/classes/QPro.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 249f4fe..db1c127 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -33,6 +33,7 @@ from ..QuantumToolbox.operators import identity #pylint: disable=relative-beyond
 
 from .base import qBase, addDecorator, _recurseIfList
 from .baseClasses import updateBase
+from .exceptions import checkCorType
 from .QSimBase import _parameter, setAttr
 from .QSimComp import QSimComp
 from .QSweep import Sweep
@@ -340,6 +341,10 @@ class qProtocol(genericProtocol):
         '''
         Copy step ensures the exponentiation
         '''
+        for step in args:
+            checkCorType(step, (genericProtocol, copyStep), f'step of {self.name}')
+            if self._isInSteps(step):
+                raise ValueError(f"{self.name} is in the steps of {step.name}, it cannot be a step of itself.")
         for step in args:
             if isinstance(step, copyStep):
                 super().addSubSys(step)
@@ -356,6 +361,11 @@ class qProtocol(genericProtocol):
             self._stepSource(step)._paramBoundBase__paramBound[self.name] = self
             self._paramUpdated = True
 
+    def _isInSteps(self, step):
+        source = self._stepSource(step)
+        return (source is self) or (isinstance(source, qProtocol) and
+                                    any(self._isInSteps(st) for st in source.subSys.values()))
+
     @staticmethod
     def _stepSource(step):
         r"""
-- 
2.43.0


From d7acfb06122213925df91b3907902496222076c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 57/76] fix: rejected time parameters do not change the others

---
 src/quanguru/classes/QSimBase.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QSimBase.py b/src/quanguru/classes/QSimBase.py
index 63d2853..7bfa04a 100644
--- a/src/quanguru/classes/QSimBase.py
+++ b/src/quanguru/classes/QSimBase.py
@@ -351,11 +351,16 @@ class timeBase(stateBase):
     def totalTime(self, fTime):
         if self._timeBase__stepSize._bound not in (None, False):# pylint: disable=protected-access
             self._timeBase__stepSize._value = self._timeBase__stepSize._bound._value # pylint: disable=protected-access
-        setAttrParam(self, '_timeBase__totalTime', fTime)
+        # related parameters are calculated first, so that nothing changes when the given value is not suitable
         if self.stepSize is not None:
-            self._timeBase__stepCount.value = int((fTime//self.stepSize) + 1) # pylint: disable=assigning-non-slot
+            related, value = self._timeBase__stepCount, int((fTime//self.stepSize) + 1)
         elif self._timeBase__stepCount.value is not None: # stepCount is set before the totalTime
-            self._timeBase__stepSize.value = fTime/self._timeBase__stepCount.value # pylint: disable=assigning-non-slot
+            related, value = self._timeBase__stepSize, fTime/self._timeBase__stepCount.value
+        else:
+            related = None
+        setAttrParam(self, '_timeBase__totalTime', fTime)
+        if related is not None:
+            related.value = value
 
     @property
     def stepCount(self):
@@ -382,10 +387,12 @@ class timeBase(stateBase):
     def stepCount(self, num):
         if self._timeBase__totalTime._bound not in (None, False):# pylint: disable=protected-access
             self._timeBase__totalTime._value = self._timeBase__totalTime._bound._value# pylint: disable=protected-access
+        # calculated first, so that nothing changes when the given value is not suitable
+        stepSize = None if self.totalTime is None else self.totalTime/num
         setAttrParam(self, '_timeBase__stepCount', num)
-        if self.totalTime is not None:
+        if stepSize is not None:
             # this might change also when the stepCount is the same, e.g. if it was calculated by its getter
-            setAttrParam(self, '_timeBase__stepSize', self.totalTime/num)
+            setAttrParam(self, '_timeBase__stepSize', stepSize)
 
     @property
     def stepSize(self):
@@ -404,9 +411,11 @@ class timeBase(stateBase):
     def stepSize(self, stepsize):
         if self._timeBase__totalTime._bound not in (None, False):# pylint: disable=protected-access
             self._timeBase__totalTime._value = self._timeBase__totalTime._bound._value# pylint: disable=protected-access
+        # calculated first, so that nothing changes when the given value is not suitable
+        stepCount = None if self.totalTime is None else int((self.totalTime//stepsize) + 1)
         setAttrParam(self, '_timeBase__stepSize', stepsize)
-        if self.totalTime is not None:
-            self._timeBase__stepCount.value = int((self.totalTime//stepsize) + 1) # pylint: disable=assigning-non-slot
+        if stepCount is not None:
+            self._timeBase__stepCount.value = stepCount # pylint: disable=assigning-non-slot
 
     @property
     def samples(self):
-- 
2.43.0


From 275d0e64aa9992480508b4c1822d66ea41436175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 58/76] fix: multiplying a system by a number that is not an
 integer does not change the system

---
 src/quanguru/classes/QSystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 0121d95..0c5546a 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -771,10 +771,11 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         With this method, ``*`` creates a composite quantum system that contains ``N=other`` many quantum systems with
         the same ``type`` as ``self``.
         """
+        copies = [self.copy() for _ in range(other - 1)] # raises an error before self is added into a composite
         newComp = QuantumSystem()
         newComp.addSubSys(self)
-        for _ in range(other - 1):
-            newComp.addSubSys(self.copy())
+        for sys in copies:
+            newComp.addSubSys(sys)
         return newComp
 
 
-- 
2.43.0


From c88bca478f0c48581db432625d6f3af7d8885e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 59/76] fix: a rejected dimension does not determine the type
 of the system

---
 src/quanguru/classes/QSystem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 0c5546a..710a233 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -262,13 +262,15 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
 
     @dimension.setter
     def dimension(self, dim):
+        if not self._QuantumSystem__compSys: # pylint:disable=no-member
+            checkCorType(dim, (int, integer), "dimension of a QuantumSystem has to be an integer")
+            checkVal(dim>0, True, "dimension of a QuantumSystem has to be larger than 0")
+            self._hasConsistentDimensionTerm(dim)
+
         if self._QuantumSystem__compSys is None: # pylint:disable=no-member
             self._QuantumSystem__compSys = bool(len(self.subSys)) # pylint:disable=assigning-non-slot
 
         if not self._isComposite: # pylint:disable=no-member
-            checkCorType(dim, (int, integer), "dimension of a QuantumSystem has to be an integer")
-            checkVal(dim>0, True, "dimension of a QuantumSystem has to be larger than 0")
-            self._hasConsistentDimensionTerm(dim)
             oldVal = getattr(self, '_QuantumSystem__dimension')
             setAttr(self, '_QuantumSystem__dimension', dim)
             if self._paramUpdated:
-- 
2.43.0


From 6073588eb4925deb870f06ab8db28794fbac3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 60/76] fix: rejected operators of a coupling were partly
 applied to its systems

---
 src/quanguru/classes/QTerms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QTerms.py b/src/quanguru/classes/QTerms.py
index 787a7b6..f0f30a0 100644
--- a/src/quanguru/classes/QTerms.py
+++ b/src/quanguru/classes/QTerms.py
@@ -184,10 +184,11 @@ class QTerm(paramBoundBase):
             checkCorType(vals, (list, tuple), f'{attrPrintName} of a term with multiple system (i.e. a coupling term)')
             checkVal(len(vals), len(self.qSystem), f'Number of {attrPrintName} ({len(vals)}) should be the same as'+
                                                     f' number of qSystem ({len(self.subSys)})')
-            for ind, ter in enumerate(self.subSys.values()):
-                setAttr(ter, attrName, vals[ind])
         if attrName == '_QTerm__operator':
             self._isCorrectPauliDim(self.qSystem, vals) #pylint:disable=no-member
+        if isinstance(vals, (list, tuple)):
+            for ind, ter in enumerate(self.subSys.values()):
+                setAttr(ter, attrName, vals[ind])
         setAttr(self, attrName, vals)
         if self._paramUpdated:
             self._paramBoundBase__matrix = None # pylint: disable=assigning-non-slot
-- 
2.43.0


From cb6e84b014f1277997da43d32950bf8986970950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 61/76] fix: density matrices as the initial states of
 open-system simulations are squared

---
 src/quanguru/classes/modularSweep.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 8d7ba80..701f1da 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -85,7 +85,10 @@ def _sweepAndEvolve(qSim, ind):
 
     for protocol in qSim.subSys.keys():
         if callable(qSim.evolFunc):
-            protocol.currentState = protocol.initialState if not protocol._isOpen else densityMatrix(protocol.initialState)# pylint: disable=protected-access,line-too-long
+            initialState = protocol.initialState
+            # the initial state might already be a density matrix
+            isKet = initialState.shape[1] == 1
+            protocol.currentState = densityMatrix(initialState) if (isKet and protocol._isOpen) else initialState # pylint: disable=protected-access,line-too-long
 
     qSim.qRes._resetLast() # pylint: disable=protected-access
     qSim._computeBase__calculate("pre")
-- 
2.43.0


From 41b63a287c77a757b12eeab1b36135af7ba054cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 62/76] fix: closed evolution of density matrices multiplies by
 the unitary only from the left

---
 src/quanguru/classes/modularSweep.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 701f1da..d1c6d80 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -34,7 +34,7 @@
 """
 
 from functools import partial
-from ..QuantumToolbox import densityMatrix, mat2Vec, vec2Mat
+from ..QuantumToolbox import densityMatrix, hc, mat2Vec, vec2Mat
 
 def runSimulation(qSim, p):
     # NOTE determine if more samples of a protocol step are requested.
@@ -159,11 +159,15 @@ def timeEvolDefault(qSim, td):
                     qsystem._computeBase__compute(protocol.currentState) # pylint: disable=protected-access
                     calledFor.append(qsystem)
 
+def _applyUnitary(unitary, state):
+    isKet = state.shape[1] == 1
+    return unitary @ state if isKet else unitary @ state @ hc(unitary)
+
 def _evolveSamples(protocol, collapseOps=None, decayRates=None):
     for step in protocol.steps.values():
         for _ in range(step.simulation.samples):
             if collapseOps is None:
-                protocol.currentState = step.unitary() @ protocol.currentState
+                protocol.currentState = _applyUnitary(step.unitary(), protocol.currentState)
             else:
                 state = step.getUnitary(collapseOps, decayRates) @ mat2Vec(protocol.currentState)
                 protocol.currentState = vec2Mat(state)
@@ -186,7 +190,7 @@ def timeEvolBase(qSim):
             if protocol.stepSample:
                 protocol._callWithUpdates(_evolveSamples, protocol) # pylint: disable=protected-access
             else:
-                protocol.currentState = protocol.unitary() @ protocol.currentState
+                protocol.currentState = _applyUnitary(protocol.unitary(), protocol.currentState)
         #protocol.sampleStates = []
         #qSim.subSys[protocol]._computeBase__compute([protocol.currentState]) # pylint: disable=protected-access
         #sampleCompute = qSim is protocol.simulation
-- 
2.43.0


From 516659e741ec103c48c8591e7cb517637b0cfd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 63/76] fix: initial states of composite systems with density
 matrices of some sub-systems have a wrong shape

---
 src/quanguru/classes/QSystem.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 710a233..5feec74 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -32,7 +32,7 @@ from .QTerms import QTerm
 from .exceptions import checkVal, checkNotVal, checkCorType
 
 from ..QuantumToolbox.linearAlgebra import tensorProd #pylint: disable=relative-beyond-top-level
-from ..QuantumToolbox.states import superPos #pylint: disable=relative-beyond-top-level
+from ..QuantumToolbox.states import superPos, densityMatrix #pylint: disable=relative-beyond-top-level
 from ..QuantumToolbox.operators import number, Jz
 
 def _initStDec(_createInitialState):
@@ -158,7 +158,13 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         if self._isComposite:
             inp = [qsys._initialStateInput for qsys in self.subSys.values()] if inp is None else inp
             subSysStates = [qsys._createInitialState(inp[ind], qsys.simulation._getMaxInput(inp[ind])) for ind, qsys in enumerate(self.subSys.values())]  # pylint: disable=protected-access,line-too-long
-            initialState = tensorProd(*subSysStates) if not any(inst is None for inst in subSysStates) else None
+            if not any(inst is None for inst in subSysStates):
+                # kets and density matrices cannot be mixed in a tensor product
+                if any(inst.shape[1] != 1 for inst in subSysStates):
+                    subSysStates = [densityMatrix(inst) if inst.shape[1] == 1 else inst for inst in subSysStates] # pylint: disable=line-too-long
+                initialState = tensorProd(*subSysStates)
+            else:
+                initialState = None
         else:
             checkNotVal(inp, None, self.name + ' is not given an initial state')
             initialState = superPos(self.dimension, inp, not self._inpCoef) if _maxInput < self.dimension else None
-- 
2.43.0


From 37180c9a9cefe57bf33488241f9168e1ee1a4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 64/76] fix: updates of dissipators are not in effect for the
 operator of the step

---
 src/quanguru/classes/QPro.py         | 10 +++++++---
 src/quanguru/classes/modularSweep.py |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index db1c127..2551401 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -212,17 +212,21 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
     def getUnitary(self, collapseOps = None, decayRates = None):
-        collapseOps, decayRates = self._addDissipators(collapseOps, decayRates)
         if self.superSys is not None:
             self.superSys._timeDependency() # pylint: disable=no-member
-        self._checkUsedDissipators(collapseOps, decayRates)
 
-        self._paramBoundBase__matrix = self._callWithUpdates(self._getUnitary, collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
+        self._paramBoundBase__matrix = self._callWithUpdates(self._unitaryWithDissipators, collapseOps, decayRates) # pylint: disable=no-member, assigning-non-slot
         self._paramUpdatedToFalse()
         if len(self._genericProtocol__updates) > 0:
             self._forgetSteps()
         return self._paramBoundBase__matrix # pylint: disable=no-member
 
+    def _unitaryWithDissipators(self, collapseOps = None, decayRates = None):
+        # the updates might also change the dissipators
+        collapseOps, decayRates = self._addDissipators(collapseOps, decayRates)
+        self._checkUsedDissipators(collapseOps, decayRates)
+        return self._getUnitary(collapseOps, decayRates)
+
     def _callWithUpdates(self, func, *args):
         # calls the function while the updates are in effect, and the updates are also set back when an error is raised
         done = []
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index d1c6d80..0e4d6e0 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -163,7 +163,8 @@ def _applyUnitary(unitary, state):
     isKet = state.shape[1] == 1
     return unitary @ state if isKet else unitary @ state @ hc(unitary)
 
-def _evolveSamples(protocol, collapseOps=None, decayRates=None):
+def _evolveSamples(protocol):
+    collapseOps, decayRates = protocol._addDissipators() # pylint: disable=protected-access
     for step in protocol.steps.values():
         for _ in range(step.simulation.samples):
             if collapseOps is None:
@@ -180,7 +181,7 @@ def timeEvolBase(qSim):
         if protocol._isOpen: # pylint: disable=protected-access
             protocol.sampleStates = []
             if protocol.stepSample:
-                protocol._callWithUpdates(_evolveSamples, protocol, *protocol._addDissipators()) # pylint: disable=protected-access
+                protocol._callWithUpdates(_evolveSamples, protocol) # pylint: disable=protected-access
             else:
                 state = mat2Vec(protocol.currentState)
                 state = protocol.unitary() @ state
-- 
2.43.0


From 98d3b33badf8c37abba7721fabadb949600a3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 65/76] fix: updates of rates at a non-zero temperature are not
 set back to the rates of the user

---
 src/quanguru/classes/QPro.py        |  8 ++++++--
 src/quanguru/classes/environment.py | 11 +++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 2551401..ab213c1 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -593,7 +593,7 @@ class Update(updateBase):
         self._updateBase__function = func # pylint: disable=assigning-non-slot
 
     def _setup(self):
-        self._memoryValues.append({sys: getattr(sys, self.key) for sys in self.subSys.values()})
+        self._memoryValues.append({sys: getattr(sys, self._storedKey(sys)) for sys in self.subSys.values()})
         self.memoryValue = self._memoryValues[-1][list(self.subSys.values())[0]]
         try:
             if self._updateBase__function is None: # pylint: disable=no-member
@@ -609,4 +609,8 @@ class Update(updateBase):
             super()._runUpdate(self.memoryValue)
         else:
             for sys, val in self._memoryValues.pop().items():
-                setattr(sys, self.key, val)
+                setattr(sys, self._storedKey(sys), val)
+
+    def _storedKey(self, sys):
+        # some attributes return another value than the one that is set (rates of dissipators depend on the temperature)
+        return getattr(sys, '_storedAs', {}).get(self.key, self.key)
diff --git a/src/quanguru/classes/environment.py b/src/quanguru/classes/environment.py
index 8b66c7b..a57c9a9 100644
--- a/src/quanguru/classes/environment.py
+++ b/src/quanguru/classes/environment.py
@@ -56,6 +56,9 @@ class dissipatorObj(_genericOpen):
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
+    #: attribute that stores the value that is set to another one, which includes the number of excitations of the bath
+    _storedAs = {'jRate': '_rate'}
+
     __slots__ = ['type', '__operator', '__rate', '__bath']
 
     def __init__(self, **kwargs):
@@ -93,6 +96,14 @@ class dissipatorObj(_genericOpen):
 
     @jRate.setter
     def jRate(self, rate):
+        self._rate = rate
+
+    @property
+    def _rate(self):
+        return self._dissipatorObj__rate
+
+    @_rate.setter
+    def _rate(self, rate):
         setAttr(self, '_dissipatorObj__rate', rate)
 
     @property
-- 
2.43.0


From ebe80dcc4ade24c68bbcebd869c8cace40b17361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 66/76] fix: changes of the range of a sweep after its list is
 created are ignored

---
 src/quanguru/classes/QSweep.py       | 14 +++++++++++---
 src/quanguru/classes/modularSweep.py |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index 8abc3a4..a15d834 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -58,7 +58,8 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
     #: (**class attribute**) number of total instances = _internalInstances + _externalInstances
     _instances: int = 0
 
-    __slots__ = ['sweepMax', 'sweepMin', 'sweepStep', '_sweepList', 'logSweep', 'combinatorial', '_sweepIndex']
+    __slots__ = ['sweepMax', 'sweepMin', 'sweepStep', '_sweepList', '_listRange', 'logSweep', 'combinatorial',
+                 '_sweepIndex']
 
     #@sweepInitError
     def __init__(self, **kwargs):
@@ -76,6 +77,8 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
         #: protected attribute to store a list of values for the swept parameter. Can be given a full list or
         #: be created using sweepMin-sweepMax-sweepStep values.
         self._sweepList = None
+        #: the range from which the list is created, None if the list is given by the user
+        self._listRange = None
         #: boolean to create either linearly or logarithmically spaced list values (from sweepMin-sweepMax-sweepStep).
         self.logSweep = False
         #: boolean to determine, if two different sweeps are swept simultaneously (same length of list and pair of
@@ -125,9 +128,12 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
     def sweepList(self):
         r"""
         gets and sets :py:attr:`~_sweepList`. Setter requires a list input, if it is not set, getter tries creating the
-        list (and setting :py:attr:`~_sweepList`) using sweepMin-sweepMax-sweepStep attributes.
+        list (and setting :py:attr:`~_sweepList`) using sweepMin-sweepMax-sweepStep attributes. The list is created again
+        when these are changed.
         """
-        if self._sweepList is None:
+        newRange = (self.sweepMin, self.sweepMax, self.sweepStep, self.logSweep)
+        if (self._sweepList is None) or (self._listRange not in (None, newRange)):
+            self._sweepList = None
             try:
                 if self.logSweep is False:
                     self._sweepList = arange(self.sweepMin, self.sweepMax + self.sweepStep, # pylint: disable=no-member
@@ -135,6 +141,7 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
                 elif self.logSweep is True:
                     self._sweepList = logspace(self.sweepMin, self.sweepMax,
                                                num=self.sweepStep, base=10.0) # pylint: disable=no-member
+                self._listRange = newRange
             except: #pylint:disable=bare-except # noqa: E722
                 pass
         return self._sweepList
@@ -142,6 +149,7 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
     @sweepList.setter
     def sweepList(self, sList):
         self._sweepList = sList
+        self._listRange = None
 
     @staticmethod
     def _defSweep(self): # pylint: disable=bad-staticmethod-argument
diff --git a/src/quanguru/classes/modularSweep.py b/src/quanguru/classes/modularSweep.py
index 0e4d6e0..992c36f 100644
--- a/src/quanguru/classes/modularSweep.py
+++ b/src/quanguru/classes/modularSweep.py
@@ -113,7 +113,7 @@ def timeDependent(qSim):
     td = False
     if len(qSim.timeDependency.sweeps) > 0:
         td = True
-        if list(qSim.timeDependency.sweeps.values())[0]._sweepList is not None: #pylint: disable=protected-access
+        if list(qSim.timeDependency.sweeps.values())[0].sweepList is not None:
             qSim.timeDependency.prepare()
         else:
             qSim.timeDependency._Sweep__inds = [qSim.stepCount] #pylint: disable=protected-access
-- 
2.43.0


From cdfc28c3eec396d36931db473f8f5de377c75e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 67/76] fix: ranges of sweeps with non-integer steps might have
 one more value than the maximum

---
 src/quanguru/classes/QSweep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSweep.py b/src/quanguru/classes/QSweep.py
index a15d834..d70dca4 100644
--- a/src/quanguru/classes/QSweep.py
+++ b/src/quanguru/classes/QSweep.py
@@ -25,6 +25,7 @@ r"""
 """
 
 from functools import reduce
+from math import ceil
 from numpy import arange, logspace
 
 from .base import qBase, _recurseIfList
@@ -136,8 +137,9 @@ class _sweep(updateBase): # pylint: disable=too-many-instance-attributes
             self._sweepList = None
             try:
                 if self.logSweep is False:
-                    self._sweepList = arange(self.sweepMin, self.sweepMax + self.sweepStep, # pylint: disable=no-member
-                                             self.sweepStep) # pylint: disable=no-member
+                    # rounded, because arange with a non-integer step might otherwise include one more value
+                    num = ceil(round((self.sweepMax + self.sweepStep - self.sweepMin)/self.sweepStep, 9)) # pylint: disable=no-member
+                    self._sweepList = self.sweepMin + self.sweepStep*arange(num) # pylint: disable=no-member
                 elif self.logSweep is True:
                     self._sweepList = logspace(self.sweepMin, self.sweepMax,
                                                num=self.sweepStep, base=10.0) # pylint: disable=no-member
-- 
2.43.0


From d9c1b81248adaf2ae418fd704cdf6a532434b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 68/76] fix: adding a system together with its dimension to a
 composite system raises an error

---
 src/quanguru/classes/QSystem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 5feec74..6a83c02 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -447,12 +447,14 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         elif self._QuantumSystem__compSys is False: # pylint:disable=no-member
             raise TypeError("Cannot add a sub-system to a single quantum system " + self.name)
 
+        # before adding, because the dimensions of the others cannot be updated until it is in the sub-systems
+        subSys._named__setKwargs(**kwargs) # pylint: disable=W0212
         if subSys not in self.subSys.values():
             self._QuantumSystem__addSub(subSys)
         subSys.superSys = self
         self._paramUpdated = True
         subSys._paramBoundBase__paramBound[self.name] = self # pylint: disable=protected-access
-        super().addSubSys(subSys, **kwargs)
+        super().addSubSys(subSys)
         self.delMatrices(_exclude=[])
         self._resetStateInputs()
         return subSys
-- 
2.43.0


From d9d7caba2690ed15b1b1b75c9f15d09a8c0c9f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 69/76] fix: replacing or resetting the sub-systems of a
 composite system does not update the removed systems

---
 src/quanguru/classes/QSystem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 6a83c02..2d3abe4 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -553,6 +553,12 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         self.delMatrices(_exclude=[])
         self._paramUpdated = True
 
+    def resetSubSys(self):
+        r"""
+        Removes all the sub-systems, so that they are also updated (as in :meth:`removeSubSys`).
+        """
+        self.removeSubSys(list(self.subSys.values()))
+
     #free evolution composition and protocols
     # TODO test these with the protocol tests
     @property
-- 
2.43.0


From a82e2bd4354e7c5dd59a65c80ddfb408369da4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:40 +0000
Subject: [PATCH 70/76] fix: rejected lists of sub-systems are partly added,
 and rejected replacements remove the sub-systems

---
 src/quanguru/classes/QSystem.py | 44 ++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 2d3abe4..fcf1c66 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -24,7 +24,7 @@ from typing import Any
 from numpy import ndarray, integer
 from scipy.sparse import spmatrix
 
-from .base import addDecorator, _recurseIfList, aliasDict
+from .base import addDecorator, _recurseIfList, aliasClass, aliasDict
 from .QSimComp import QSimComp
 from .QPro import freeEvolution
 from .QSimBase import setAttr
@@ -426,8 +426,39 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
                 compSys.simulation._stateBase__initialState.value = None
             compSys = compSys.superSys
 
-    @addDecorator
+    def _checkSubSys(self, subSys):
+        r"""
+        Raises an error for the inputs that cannot be sub-systems, before any of the inputs in a list is added.
+        """
+        if isinstance(subSys, (list, tuple)):
+            for sub in subSys:
+                self._checkSubSys(sub)
+            return
+        if isinstance(subSys, (str, aliasClass)):
+            subSys = self.getByNameOrAlias(subSys)
+        if not (isinstance(subSys, type) and issubclass(subSys, QuantumSystem)):
+            checkCorType(subSys, QuantumSystem, f'sub-system of {self.name}')
+            if (subSys is self) or subSys._hasInSubs(self): # pylint:disable=protected-access
+                raise ValueError(f"{self.name} is a subsystem of {subSys.name}. " +
+                                 f"Cannot add {subSys.name} as subsystem to {self.name}. " +
+                                 "Circular subsystem addition is not allowed.")
+        if self._QuantumSystem__compSys is False: # pylint:disable=no-member
+            raise TypeError("Cannot add a sub-system to a single quantum system " + self.name)
+
+    @QSimComp.subSys.setter # pylint: disable=no-member
+    def subSys(self, subS):
+        self._checkSubSys(subS)
+        QSimComp.subSys.fset(self, subS) # pylint: disable=no-member
+
     def addSubSys(self, subSys, **kwargs):
+        r"""
+        Checks all the inputs, and then adds them by :meth:`_addSubSys`.
+        """
+        self._checkSubSys(subSys)
+        return self._addSubSys(subSys, **kwargs)
+
+    @addDecorator
+    def _addSubSys(self, subSys, **kwargs):
         r"""
         Extends the addSubSys method for composite quantum systems to set the __compSys boolean (to True, if None),
         update the dimsBefore/After of the sub-systems, set self as superSys of the sub-system, and set _paramUpdated to
@@ -436,17 +467,8 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         updates of the sub-system also sets the _paramUpdated of self to True.
         Note that composite systems can contain other composite systems as sub-systems.
         """
-        checkCorType(subSys, QuantumSystem, f'sub-system of {self.name}')
-        if (subSys is self) or subSys._hasInSubs(self): # pylint:disable=protected-access
-            raise ValueError(f"{self.name} is a subsystem of {subSys.name}. " +
-                             f"Cannot add {subSys.name} as subsystem to {self.name}. " +
-                             "Circular subsystem addition is not allowed.")
-
         if self._QuantumSystem__compSys is None: # pylint:disable=no-member
             self._QuantumSystem__compSys = True # pylint:disable=assigning-non-slot
-        elif self._QuantumSystem__compSys is False: # pylint:disable=no-member
-            raise TypeError("Cannot add a sub-system to a single quantum system " + self.name)
-
         # before adding, because the dimensions of the others cannot be updated until it is in the sub-systems
         subSys._named__setKwargs(**kwargs) # pylint: disable=W0212
         if subSys not in self.subSys.values():
-- 
2.43.0


From a02158307c8e202986558d876a15f425d6d815ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:39 +0000
Subject: [PATCH 71/76] fix: rejected aliases are partly given to the object or
 to its results

---
 src/quanguru/classes/base.py        | 10 ++++++++--
 src/quanguru/classes/baseClasses.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 1596562..6353a7f 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -461,13 +461,19 @@ class named:
         return self._named__name.alias
 
     @alias.setter
+    def alias(self, ali: Union[str, List, Tuple]) -> None:
+        self._checkAlias(ali)
+        self._named__name.alias = ali
+
     @_recurseIfList
-    def alias(self, ali: str) -> None:
+    def _checkAlias(self, ali: str) -> None:
+        r"""
+        Raises an error if (any of) the given ``ali`` is already a name or an alias of another object.
+        """
         for k, v in self._allInstacesDict.items():
             wv = v if not isinstance(v, weakref.ReferenceType) else v()
             checkNotVal((k == ali) and (wv != self), True,
                          f"Given alias ({ali}) already exist and is assigned to: {k.name}")
-        self._named__name.alias = ali
 
     @classmethod
     def clsLabel(cls) -> str:
diff --git a/src/quanguru/classes/baseClasses.py b/src/quanguru/classes/baseClasses.py
index 7826a32..c138335 100644
--- a/src/quanguru/classes/baseClasses.py
+++ b/src/quanguru/classes/baseClasses.py
@@ -304,11 +304,15 @@ class computeBase(paramBoundBase):
         r"""
         Extends the alias setter to assign an alias (givenAlias + Results) to self.qRes as well.
         """
-        named.alias.fset(self, ali) #pylint:disable=no-member
+        resAlias = []
         if isinstance(ali, str):
-            self.qRes.alias = ali + "Results"
-        elif isinstance(ali, list):
-            self.qRes.alias = [a+"Results" for a in ali if isinstance(a, str)]
+            resAlias = ali + "Results"
+        elif isinstance(ali, (list, tuple)):
+            resAlias = [a+"Results" for a in ali if isinstance(a, str)]
+        self._checkAlias(ali)
+        self.qRes._checkAlias(resAlias)
+        named.alias.fset(self, ali) #pylint:disable=no-member
+        self.qRes.alias = resAlias
 
     @property
     def resultsDict(self) -> Dict:
-- 
2.43.0


From 72ce02c950f4b0b8fb0f8dd87baef55aba7dd966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:24 +0000
Subject: [PATCH 72/76] fix: rejected terms remove the earlier terms, or are
 partly added

---
 src/quanguru/classes/QSystem.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index fcf1c66..83fac69 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -660,12 +660,31 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         """
         return self._QuantumSystem__terms # pylint:disable=no-member
 
-    @addDecorator
+    def _checkTerms(self, trm):
+        r"""
+        Raises an error for the inputs that are not terms, before any of the inputs in a list is added.
+        """
+        if isinstance(trm, (list, tuple)):
+            for ter in trm:
+                self._checkTerms(ter)
+            return
+        if isinstance(trm, (str, aliasClass)):
+            trm = self.getByNameOrAlias(trm)
+        if not (isinstance(trm, type) and issubclass(trm, QTerm)):
+            checkCorType(trm, QTerm, f"addTerms argument/s ({trm})")
+
     def addTerms(self, trm, **kwargs):
+        r"""
+        Checks all the inputs, and then adds them by :meth:`_addTerms`.
+        """
+        self._checkTerms(trm)
+        return self._addTerms(trm, **kwargs)
+
+    @addDecorator
+    def _addTerms(self, trm, **kwargs):
         r"""
         Method to add an existing term to self and also optionally set some of the term parameters through the kwargs.
         """
-        checkCorType(trm, QTerm, f"addTerms argument/s ({trm.name})")
         supSys = kwargs.pop('superSys', self)
         trm._named__setKwargs(**kwargs) # pylint: disable=W0212
         if len(self.terms) == 0:
@@ -725,6 +744,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
 
     @terms.setter
     def terms(self, trm):
+        self._checkTerms(trm)
         self.resetTerms()
         self.addTerms(trm)
 
-- 
2.43.0


From 09612fd86cde10e3b918994ba777a809ac1a1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 73/76] fix: rejected replacements of the sub-systems remove
 the earlier ones, and rejected lists are partly added to simulations

---
 src/quanguru/classes/QPro.py | 12 +++++++++---
 src/quanguru/classes/QSim.py | 10 +++++++++-
 src/quanguru/classes/base.py | 14 ++++++++++++++
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index ab213c1..37491b3 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -341,14 +341,20 @@ class qProtocol(genericProtocol):
     def addSubSys(self, subSys, **kwargs):
         return self.addStep(subSys, **kwargs)
 
+    def _checkSubSys(self, subSys):
+        r"""
+        Raises an error for the inputs that cannot be a step, before any of the existing ones are removed.
+        """
+        checkCorType(subSys, (genericProtocol, copyStep), f'step of {self.name}')
+        if self._isInSteps(subSys):
+            raise ValueError(f"{self.name} is in the steps of {subSys.name}, it cannot be a step of itself.")
+
     def addStep(self, *args):
         '''
         Copy step ensures the exponentiation
         '''
         for step in args:
-            checkCorType(step, (genericProtocol, copyStep), f'step of {self.name}')
-            if self._isInSteps(step):
-                raise ValueError(f"{self.name} is in the steps of {step.name}, it cannot be a step of itself.")
+            self._checkSubSys(step)
         for step in args:
             if isinstance(step, copyStep):
                 super().addSubSys(step)
diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index b6ccf2b..669cc0b 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -26,7 +26,8 @@ import sys
 import platform
 import multiprocessing
 
-from .base import _recurseIfList, named
+from .base import _recurseIfList, named, aliasClass
+from .exceptions import checkVal
 from .QSimBase import timeBase
 from .QSweep import Sweep
 from .modularSweep import runSimulation
@@ -176,6 +177,12 @@ class Simulation(timeBase):
         qPros = list(self.subSys.keys())
         return qPros if len(qPros) > 1 else qPros[0]
 
+    def _checkSubSys(self, subSys):
+        super()._checkSubSys(subSys)
+        if not isinstance(subSys, (list, tuple)):
+            subSys = self.getByNameOrAlias(subSys) if isinstance(subSys, (str, aliasClass)) else subSys
+            checkVal(hasattr(subSys, 'simulation'), True, f'{subSys} cannot be added to a simulation')
+
     def addQSystems(self, subS, Protocol=None, **kwargs):
         """
         Quantum systems and the corresponding protocols are, respectively, stored as the values and keys of ``subSys``
@@ -194,6 +201,7 @@ class Simulation(timeBase):
         [type]
             [description]
         """
+        self._checkSubSys(subS)
         if isinstance(subS, (list, tuple)):
             for qsys in subS:
                 self.addQSystems(qsys, **kwargs)
diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 6353a7f..38d8b0a 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -681,9 +681,23 @@ class qBase(named):
 
     @subSys.setter
     def subSys(self, subS: Any) -> None:
+        self._checkSubSys(subS)
         self.resetSubSys()
         self.addSubSys(subS)
 
+    def _checkSubSys(self, subSys: Any) -> None:
+        r"""
+        Raises an error for the inputs that cannot be added by :meth:`addSubSys <qBase.addSubSys>`, before the existing
+        ones are reset or any of the inputs in a list is added.
+        """
+        if isinstance(subSys, (list, tuple)):
+            for sub in subSys:
+                self._checkSubSys(sub)
+        elif isinstance(subSys, (str, aliasClass)):
+            self.getByNameOrAlias(subSys)
+        elif not (isinstance(subSys, (named, _auxiliaryClass)) or subSys.__class__ is type):
+            raise TypeError('Add function does not support ' + f'{subSys.__class__} types')
+
     @addDecorator
     def addSubSys(self, subSys: named, **kwargs) -> named:
         r"""
-- 
2.43.0


From 5c93f67c4b9b90d0d03f643374bdb3ddf4c85ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 74/76] fix: rejected removals of lists are partly done

---
 src/quanguru/classes/QPro.py    |  7 +++++++
 src/quanguru/classes/QSim.py    | 15 ++++++++++++---
 src/quanguru/classes/QSystem.py | 23 ++++++++++++++++++++++-
 src/quanguru/classes/base.py    | 18 +++++++++++++++---
 4 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index 37491b3..b34dfde 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -383,6 +383,13 @@ class qProtocol(genericProtocol):
         """
         return step.superSys if isinstance(step, copyStep) else step
 
+    @_recurseIfList
+    def _checkRemove(self, subSys):
+        super()._checkRemove(subSys)
+        step = self.getByNameOrAlias(subSys)
+        if step.name not in self.subSys:
+            raise KeyError(step.name)
+
     @_recurseIfList
     def _removeSubSysExc(self, subSys, _exclude=[]): # pylint: disable=dangerous-default-value
         step = self.getByNameOrAlias(subSys)
diff --git a/src/quanguru/classes/QSim.py b/src/quanguru/classes/QSim.py
index 669cc0b..c495c6a 100644
--- a/src/quanguru/classes/QSim.py
+++ b/src/quanguru/classes/QSim.py
@@ -240,16 +240,25 @@ class Simulation(timeBase):
         return (newSys, Protocol)
 
     @_recurseIfList
+    def _checkRemove(self, subSys):
+        subSys = self.getByNameOrAlias(subSys)
+        if not any(qSys is subSys for qSys in self.subSys.values()):
+            raise KeyError(subSys.name)
+
     def removeQSystems(self, subS):
         r"""
-        Remove a quantum system and corresponding sweeps from the simulation.
+        Remove a quantum system and corresponding sweeps from the simulation. Nothing is removed, if an error is raised
+        for any of the systems in a list.
         """
+        self._checkRemove(subS)
+        self._removeQSystems(subS)
+
+    @_recurseIfList
+    def _removeQSystems(self, subS):
         #for key, subSys in self._qBase__subSys.items(): # pylint: disable=no-member
         #    if ((subSys is subS) or (subSys.name == subS)):
         subS = self.getByNameOrAlias(subS)
         keys = [key for key, qSys in self.subSys.items() if qSys is subS]
-        if len(keys) == 0:
-            raise KeyError(subS.name)
         for key in keys: # keys are the protocols (or the name of the system before the first run)
             self.subSys.pop(key)
             if isinstance(key, named):
diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 83fac69..024a928 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -520,6 +520,15 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         self._removeSubSysExc(other, _exclude=[])
         return self
 
+    @_recurseIfList
+    def _checkRemove(self, subSys):
+        r"""
+        Raises the errors of removeSubSys before any of the systems in a list is removed.
+        """
+        checkNotVal(self._isComposite, False,
+                    f"{self.name} is not a composite. removeSubSys cannot be called on single systems")
+        checkCorType(self.getByNameOrAlias(subSys), QuantumSystem, f'sub-system of {self.name}')
+
     @_recurseIfList
     def _removeSubSysExc(self, subSys: Any, _exclude=[]) -> None: # pylint:disable=dangerous-default-value
         r"""
@@ -719,7 +728,6 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         self.delMatrices(_exclude=[])
         self._paramUpdated = True
 
-    @_recurseIfList
     def removeTerm(self, termObj):
         r"""
         Method to remove the given term from the quantum system. This can be called on any system in a composite system
@@ -730,6 +738,19 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         empty _exclude list, which is used to avoid infinite recursions when finding the term inside a nested system.
         If the first term of the system is removed, the next one of its terms (if any) becomes the first term.
         """
+        self._checkRemoveTerm(termObj)
+        self._removeTerm(termObj)
+
+    @_recurseIfList
+    def _checkRemoveTerm(self, termObj):
+        r"""
+        Raises the errors of removeTerm before any of the terms in a list is removed.
+        """
+        termObj = self.getByNameOrAlias(termObj)
+        checkCorType(termObj, QTerm, f"Given object {termObj.name} is not a term")
+
+    @_recurseIfList
+    def _removeTerm(self, termObj):
         termObj = self.getByNameOrAlias(termObj)
         self._removeTermExc(termObj=termObj, _exclude=[])
 
diff --git a/src/quanguru/classes/base.py b/src/quanguru/classes/base.py
index 38d8b0a..24941cc 100644
--- a/src/quanguru/classes/base.py
+++ b/src/quanguru/classes/base.py
@@ -726,15 +726,27 @@ class qBase(named):
         checkCorType(subSys, (named, _auxiliaryClass), 'removeSubSys')
         self.subSys.pop(subSys.name)
 
-    @_recurseIfList
-    def removeSubSys(self, subSys: Any) -> None: # pylint: disable=dangerous-default-value
+    def removeSubSys(self, subSys: Any) -> None:
         r"""
         Removes an object from the subSys dictionary and works with the object itself, its name, or any alias. Will
         raise regular keyError if the object is not in the dictionary, or typeError if the object is not an instance of
-        named class.
+        named class. Nothing is removed, if an error is raised for any of the objects in a list.
         """
+        self._checkRemove(subSys)
+        self._removeSubSys(subSys)
+
+    @_recurseIfList
+    def _removeSubSys(self, subSys: Any) -> None:
         self._removeSubSysExc(subSys, _exclude=[])
 
+    @_recurseIfList
+    def _checkRemove(self, subSys: Any) -> None:
+        r"""
+        Raises the error of :meth:`removeSubSys <qBase.removeSubSys>` before any of the objects in a list is removed.
+        """
+        subSys = self.getByNameOrAlias(subSys)
+        checkCorType(subSys, (named, _auxiliaryClass), 'removeSubSys')
+
     def resetSubSys(self) -> None:
         r"""
         clear() the subSys dictionary.
-- 
2.43.0


From 2379804c4252071471a21d554b418375224cf173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 75/76] fix: rejected updates of protocols are partly added

---
 src/quanguru/classes/QPro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quanguru/classes/QPro.py b/src/quanguru/classes/QPro.py
index b34dfde..269765f 100644
--- a/src/quanguru/classes/QPro.py
+++ b/src/quanguru/classes/QPro.py
@@ -148,6 +148,8 @@ class genericProtocol(QSimComp): # pylint: disable = too-many-instance-attribute
         return update
 
     def addUpdate(self, *args):
+        for update in args:
+            checkCorType(update, Update, f'update of {self.name}')
         for update in args:
             self._genericProtocol__updates.append(update) # pylint: disable=no-member
             update._paramBoundProtocols.append(self) # pylint: disable=protected-access
-- 
2.43.0


From cb386c91c6ce63ff0b21afd41870bcdf63e6e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 76/76] fix: subtracting a rejected list removes a part of it

---
 src/quanguru/classes/QSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quanguru/classes/QSystem.py b/src/quanguru/classes/QSystem.py
index 024a928..c5bd49a 100644
--- a/src/quanguru/classes/QSystem.py
+++ b/src/quanguru/classes/QSystem.py
@@ -517,7 +517,7 @@ class QuantumSystem(QSimComp): # pylint:disable=too-many-instance-attributes
         overload the ``-`` operator to remove the ``other`` from ``self``, which should be the composite quantum system
         containing/connected-to the other.
         """
-        self._removeSubSysExc(other, _exclude=[])
+        self.removeSubSys(other)
         return self
 
     @_recurseIfList
-- 
2.43.0

