From 586e2815fb6366dcac3af5cf7d97aa2d90b0d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 01/47] fix: a failed dictionary insert no longer leaves an
 empty entry behind

---
 src/core/dictionary.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/dictionary.cpp b/src/core/dictionary.cpp
index 9ab0124..f398826 100644
--- a/src/core/dictionary.cpp
+++ b/src/core/dictionary.cpp
@@ -40,7 +40,11 @@ Dictionary::Dictionary(const std::initializer_list<std::pair<std::string, std::a
     }
 }
 
-void Dictionary::insert(const std::string& key, const std::any& value) { data_[key] = value; }
+void Dictionary::insert(const std::string& key, const std::any& value)
+{
+    // a failing copy of value must not leave an empty entry behind
+    data_.insert_or_assign(key, value);
+}
 
 void Dictionary::remove(const std::string& key) { data_.erase(key); }
 
-- 
2.43.0


From d142c83d53009e9488cc3ac575d26a24170faa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 02/47] fix: destroying run-time selected objects no longer
 writes shared state

---
 include/NeoFOAM/core/runtimeSelectionFactory.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/NeoFOAM/core/runtimeSelectionFactory.hpp b/include/NeoFOAM/core/runtimeSelectionFactory.hpp
index efcbf20..82f2e4d 100644
--- a/include/NeoFOAM/core/runtimeSelectionFactory.hpp
+++ b/include/NeoFOAM/core/runtimeSelectionFactory.hpp
@@ -330,12 +330,9 @@ public:
 
         ~Register() override
         {
-            if (REGISTERED)
-            {
-                const auto& tbl = RuntimeSelectionFactory::table();
-                const auto it = tbl.find(derivedClass::name());
-                REGISTERED = (it != tbl.end());
-            }
+            // instantiates the static variable and with it the registration; it must not be
+            // written here, since objects may be destroyed by several threads at once
+            (void)REGISTERED;
         }
 
 #ifdef _MSC_VER
-- 
2.43.0


From e17e21545f044936be06537724b436043f538ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 03/47] fix: a serial reduction no longer adds to the previous
 content of its result

Kokkos::parallel_reduce overwrites the result; the serial branches accumulated
onto whatever it held, so the result depended on the executor.
---
 include/NeoFOAM/core/parallelAlgorithms.hpp | 22 +++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/NeoFOAM/core/parallelAlgorithms.hpp b/include/NeoFOAM/core/parallelAlgorithms.hpp
index dac7712..c792569 100644
--- a/include/NeoFOAM/core/parallelAlgorithms.hpp
+++ b/include/NeoFOAM/core/parallelAlgorithms.hpp
@@ -104,6 +104,26 @@ void parallelFor(Field<ValueType>& field, Kernel kernel, std::string name = "par
     std::visit([&](const auto& e) { parallelFor(e, field, kernel, name); }, field.exec());
 }
 
+namespace detail
+{
+/**
+ * @brief Sets the result of a reduction to its identity, as Kokkos::parallel_reduce does.
+ * @param value Either a Kokkos reducer or a variable holding the result.
+ */
+template<typename T>
+void initReduction(T& value)
+{
+    if constexpr (Kokkos::is_reducer<T>::value)
+    {
+        value.init(value.reference());
+    }
+    else
+    {
+        value = T {};
+    }
+}
+}
+
 template<typename Executor, typename Kernel, typename T>
 void parallelReduce(
     [[maybe_unused]] const Executor& exec, std::pair<size_t, size_t> range, Kernel kernel, T& value
@@ -112,6 +132,7 @@ void parallelReduce(
     auto [start, end] = range;
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        detail::initReduction(value);
         for (size_t i = start; i < end; i++)
         {
             if constexpr (Kokkos::is_reducer<T>::value)
@@ -149,6 +170,7 @@ void parallelReduce(
 {
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        detail::initReduction(value);
         size_t fieldSize = field.size();
         for (size_t i = 0; i < fieldSize; i++)
         {
-- 
2.43.0


From 8150f9db0e99b0eb545c47267dde497bd4d75a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 04/47] fix: resizing a field emptied by resize(0) no longer
 leaks its storage

resize(0) leaves a live zero-size allocation behind; growing again allocated
anew instead of reallocating, and the old allocation was never released.
---
 include/NeoFOAM/fields/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index a7dc24b..fadbb29 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -308,7 +308,7 @@ public:
     void resize(const size_t size)
     {
         void* ptr = nullptr;
-        if (!empty())
+        if (data_ != nullptr)
         {
             std::visit(
                 [this, &ptr, size](const auto& exec)
-- 
2.43.0


From 3ca83a084172eaa4623d7ef166c37fbcbe8868d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 05/47] fix: boundary data transferred to another executor
 reports that executor

---
 include/NeoFOAM/fields/boundaryFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 7ac3584..4b48b76 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -49,7 +49,7 @@ public:
      * @param rhs The boundaryFields object to be copied.
      */
     BoundaryFields(const Executor& exec, const BoundaryFields<T>& rhs)
-        : exec_(rhs.exec_), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
+        : exec_(exec), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
           valueFraction_(exec, rhs.valueFraction_), refGrad_(exec, rhs.refGrad_),
           boundaryTypes_(exec, rhs.boundaryTypes_), offset_(exec, rhs.offset_),
           nBoundaries_(rhs.nBoundaries_), nBoundaryFaces_(rhs.nBoundaryFaces_)
-- 
2.43.0


From 9a47e95b8d4de3495dd7c611fca60b86e0591071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 06/47] fix: reading a patch range no longer dereferences
 device memory on the host

---
 include/NeoFOAM/fields/boundaryFields.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 4b48b76..1aacf6f 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -133,7 +133,10 @@ public:
      */
     std::pair<localIdx, localIdx> range(localIdx patchId) const
     {
-        return {offset_.data()[patchId], offset_.data()[patchId + 1]};
+        // the offsets may live on a device
+        const auto hostOffset = offset_.copyToHost();
+        const auto hostOffsetView = hostOffset.view();
+        return {hostOffsetView[patchId], hostOffsetView[patchId + 1]};
     }
 
 private:
-- 
2.43.0


From b77cb4a4a2340090851b9dddb628045ebf39ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 07/47] fix: halo exchange compiles for fields again and no
 longer needs host memory

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 81236a0..5e202c5 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -101,11 +101,13 @@ public:
         }
 
         CommBuffer_[commName]->initComm<valueType>(commName);
+        const auto hostField = field.copyToHost();
+        const auto hostView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);
             for (size_t data = 0; data < sendMap_[rank].size(); ++data)
-                rankBuffer[data] = field(static_cast<size_t>(sendMap_[rank][data].local_idx));
+                rankBuffer[data] = hostView[static_cast<size_t>(sendMap_[rank][data].local_idx)];
         }
         CommBuffer_[commName]->startComm();
     }
@@ -132,12 +134,15 @@ public:
         );
 
         CommBuffer_[commName]->waitComplete();
+        auto hostField = field.copyToHost();
+        auto hostView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);
             for (size_t data = 0; data < receiveMap_[rank].size(); ++data)
-                field(static_cast<size_t>(receiveMap_[rank][data].local_idx)) = rankBuffer[data];
+                hostView[static_cast<size_t>(receiveMap_[rank][data].local_idx)] = rankBuffer[data];
         }
+        field = hostField.copyToExecutor(field.exec());
         CommBuffer_[commName]->finaliseComm();
         CommBuffer_[commName] = nullptr;
     }
-- 
2.43.0


From b8be90e09d5a2b9d369df07ac06f8b6993dbda2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 08/47] fix: starting an exchange no longer moves the buffers
 of exchanges in flight

---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 5e202c5..4b838bf 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -2,6 +2,7 @@
 // SPDX-FileCopyrightText: 2023 NeoFOAM authors
 #pragma once
 
+#include <deque>
 #include <vector>
 #include <unordered_map>
 #include <memory>
@@ -152,7 +153,7 @@ private:
     mpi::MPIEnvironment mpiEnviron_; /**< The MPI environment. */
     CommMap sendMap_;                /**< The rank send map. */
     CommMap receiveMap_;             /**< The rank receive map. */
-    std::vector<bufferType> buffers; /**< Communication buffers. */
+    std::deque<bufferType> buffers;  /**< Communication buffers, must never move. */
     std::unordered_map<std::string, bufferType*>
         CommBuffer_; /**< The communication key to buffer map, nullptr indicates no assigned buffer.
                       */
-- 
2.43.0


From 8c45384ac2a6428decfdd05aca3757911e880cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 09/47] fix: patchEnd of a boundary condition returns the end
 of its patch

---
 .../finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
index 08db58e..773a561 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
@@ -42,7 +42,7 @@ public:
 
     label patchStart() const { return start_; };
 
-    label patchEnd() const { return start_; };
+    label patchEnd() const { return end_; };
 
     size_t patchSize() const { return static_cast<size_t>(end_ - start_); }
 
-- 
2.43.0


From 26cd52fdb476ce0703d66f3bb867165b25a4aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 10/47] fix: a copied mesh no longer shares cached objects that
 refer to the original

---
 include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp |  8 ++++++++
 src/mesh/unstructured/unstructuredMesh.cpp             | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp b/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp
index 354d813..9af12db 100644
--- a/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp
+++ b/include/NeoFOAM/mesh/unstructured/unstructuredMesh.hpp
@@ -68,6 +68,14 @@ public:
         BoundaryMesh boundaryMesh
     );
 
+    /**
+     * @brief Copies the mesh data.
+     *
+     * The copy starts with an empty stencil database, since cached objects refer to the mesh they
+     * were created from.
+     */
+    UnstructuredMesh(const UnstructuredMesh& other);
+
     /**
      * @brief Get the field of mesh points.
      *
diff --git a/src/mesh/unstructured/unstructuredMesh.cpp b/src/mesh/unstructured/unstructuredMesh.cpp
index 0cb9468..05c0a02 100644
--- a/src/mesh/unstructured/unstructuredMesh.cpp
+++ b/src/mesh/unstructured/unstructuredMesh.cpp
@@ -32,6 +32,16 @@ UnstructuredMesh::UnstructuredMesh(
       nFaces_(nFaces), boundaryMesh_(boundaryMesh), stencilDataBase_()
 {}
 
+UnstructuredMesh::UnstructuredMesh(const UnstructuredMesh& other)
+    : exec_(other.exec_), points_(other.points_), cellVolumes_(other.cellVolumes_),
+      cellCentres_(other.cellCentres_), faceAreas_(other.faceAreas_),
+      faceCentres_(other.faceCentres_), magFaceAreas_(other.magFaceAreas_),
+      faceOwner_(other.faceOwner_), faceNeighbour_(other.faceNeighbour_), nCells_(other.nCells_),
+      nInternalFaces_(other.nInternalFaces_), nBoundaryFaces_(other.nBoundaryFaces_),
+      nBoundaries_(other.nBoundaries_), nFaces_(other.nFaces_), boundaryMesh_(other.boundaryMesh_),
+      stencilDataBase_()
+{}
+
 
 const vectorField& UnstructuredMesh::points() const { return points_; }
 
-- 
2.43.0


From e165d4de4f5366daca74a159cc2ed5282821c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 11/47] fix: divergence, gradient and Laplacian replace the old
 content of their result

---
 src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp       | 3 +++
 src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp      | 2 ++
 src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index cc23122..660ab51 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -111,6 +111,9 @@ void computeDivExp(
     // TODO: currently we just copy the boundary values over
     phif.boundaryField().value() = phi.boundaryField().value();
 
+    // computeDiv accumulates the face contributions
+    fill(divPhi, zero<ValueType>());
+
     size_t nInternalFaces = mesh.nInternalFaces();
     size_t nBoundaryFaces = mesh.nBoundaryFaces();
     computeDiv<ValueType>(
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
index 9f0c586..550b21c 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp
@@ -41,6 +41,8 @@ void computeGrad(
 
     size_t nInternalFaces = mesh.nInternalFaces();
 
+    fill(out.internalField(), zero<Vector>());
+
     // TODO use NeoFOAM::atomic_
     parallelFor(
         exec,
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index b022671..328f8ec 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -38,6 +38,8 @@ void computeLaplacianExp(
 
     size_t nInternalFaces = mesh.nInternalFaces();
 
+    fill(lapPhi, zero<ValueType>());
+
     // TODO use NeoFOAM::add and sub
     parallelFor(
         exec,
-- 
2.43.0


From 02ebe1c8755610ae776fff5a6a18461dd479295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 12/47] fix: the explicit Laplacian applies the diffusion
 coefficient

---
 .../cellCentred/operators/gaussGreenLaplacian.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index 328f8ec..391f55c 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -32,8 +32,13 @@ void computeLaplacianExp(
         phi.boundaryField().refValue()
     );
 
-    const auto [result, faceArea, fnGrad, vol] =
-        spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
+    const auto [result, sGamma, faceArea, fnGrad, vol] = spans(
+        lapPhi,
+        gamma.internalField(),
+        mesh.magFaceAreas(),
+        faceNormalGrad.internalField(),
+        mesh.cellVolumes()
+    );
 
 
     size_t nInternalFaces = mesh.nInternalFaces();
@@ -45,7 +50,7 @@ void computeLaplacianExp(
         exec,
         {0, nInternalFaces},
         KOKKOS_LAMBDA(const size_t i) {
-            ValueType flux = faceArea[i] * fnGrad[i];
+            ValueType flux = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[static_cast<size_t>(owner[i])], flux);
             Kokkos::atomic_sub(&result[static_cast<size_t>(neighbour[i])], flux);
         }
@@ -56,7 +61,7 @@ void computeLaplacianExp(
         {nInternalFaces, fnGrad.size()},
         KOKKOS_LAMBDA(const size_t i) {
             size_t own = static_cast<size_t>(surfFaceCells[i - nInternalFaces]);
-            ValueType valueOwn = faceArea[i] * fnGrad[i];
+            ValueType valueOwn = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[own], valueOwn);
         }
     );
-- 
2.43.0


From 5b75b32caf8a775ab7c9e29bf1fccc72c7fff5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 13/47] fix: the implicit divergence accounts for
 fixed-gradient boundaries

---
 src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 660ab51..5e52f0e 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -167,6 +167,7 @@ void computeDivImp(
         sparsityPattern.ownerOffset(),
         sparsityPattern.neighbourOffset()
     );
+    const auto bDeltaCoeffs = mesh.boundaryMesh().deltaCoeffs().view();
     auto [matrix, rhs] = ls.view();
 
     parallelFor(
@@ -224,9 +225,11 @@ void computeDivImp(
 
             matrix.values[rowOwnStart + diagOffs[own]] +=
                 flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
-            // TODO fix bc values
-            rhs[own] -= (flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]));
-            // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
+            rhs[own] -=
+                (flux * operatorScalingOwn
+                 * (valueFraction[bcfacei] * refValue[bcfacei]
+                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]
+                          * (1.0 / bDeltaCoeffs[bcfacei])));
         }
     );
 };
-- 
2.43.0


From 5fde81775fbb611342f3370db6a80a316bef59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 14/47] fix: boundary faces of one cell no longer overwrite
 each other's matrix contributions

---
 .../cellCentred/operators/gaussGreenDiv.cpp   | 19 ++++++++++++-------
 .../operators/gaussGreenLaplacian.cpp         | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 5e52f0e..4630e46 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -223,13 +223,18 @@ void computeDivImp(
             std::size_t rowOwnStart = matrix.rowOffs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            matrix.values[rowOwnStart + diagOffs[own]] +=
-                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
-            rhs[own] -=
-                (flux * operatorScalingOwn
-                 * (valueFraction[bcfacei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]
-                          * (1.0 / bDeltaCoeffs[bcfacei])));
+            // a cell can have several boundary faces
+            Kokkos::atomic_add(
+                &matrix.values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>()
+            );
+            Kokkos::atomic_sub(
+                &rhs[own],
+                flux * operatorScalingOwn
+                    * (valueFraction[bcfacei] * refValue[bcfacei]
+                       + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]
+                             * (1.0 / bDeltaCoeffs[bcfacei]))
+            );
         }
     );
 };
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index 391f55c..7023636 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -170,13 +170,18 @@ void computeLaplacianImpl(
             std::size_t rowOwnStart = rowPtrs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            values[rowOwnStart + diagOffs[own]] -= flux * operatorScalingOwn
-                                                 * valueFraction[bcfacei] * deltaCoeffs[facei]
-                                                 * one<ValueType>();
-            rhs[own] -=
-                (flux * operatorScalingOwn
-                 * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]));
+            // a cell can have several boundary faces
+            Kokkos::atomic_sub(
+                &values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * valueFraction[bcfacei] * deltaCoeffs[facei]
+                    * one<ValueType>()
+            );
+            Kokkos::atomic_sub(
+                &rhs[own],
+                flux * operatorScalingOwn
+                    * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
+                       + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei])
+            );
         }
     );
 }
-- 
2.43.0


From bd0c1f7b805458ad04e79dad36bdd45463f24d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 15/47] fix: a matrix is copied to the executor asked for

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 848e01b..5801f91 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -180,7 +180,9 @@ public:
             return *this;
         }
         CSRMatrix<ValueType, IndexType> other(
-            values_.copyToHost(), colIdxs_.copyToHost(), rowOffs_.copyToHost()
+            values_.copyToExecutor(dstExec),
+            colIdxs_.copyToExecutor(dstExec),
+            rowOffs_.copyToExecutor(dstExec)
         );
         return other;
     }
@@ -231,15 +233,9 @@ convert(const Executor exec, const la::CSRMatrixView<const ValueTypeIn, const In
     Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size());
     Field<ValueTypeOut> valuesTmp(exec, in.values.data(), in.values.size());
 
-    parallelFor(
-        colIdxsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.colIdxs[i]); }
-    );
-    parallelFor(
-        rowPtrsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.rowOffs[i]); }
-    );
-    parallelFor(
-        valuesTmp, KOKKOS_LAMBDA(const size_t i) { return ValueTypeOut(in.values[i]); }
-    );
+    parallelFor(colIdxsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.colIdxs[i]); });
+    parallelFor(rowPtrsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.rowOffs[i]); });
+    parallelFor(valuesTmp, KOKKOS_LAMBDA(const size_t i) { return ValueTypeOut(in.values[i]); });
 
     return la::CSRMatrix<ValueTypeOut, IndexTypeOut> {valuesTmp, colIdxsTmp, rowPtrsTmp};
 }
-- 
2.43.0


From a2697f90880b771ecf425269ee1b5b87b0889b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 16/47] fix: converting a device matrix no longer reads device
 memory on the host

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 5801f91..fed8042 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -231,7 +231,7 @@ convert(const Executor exec, const la::CSRMatrixView<const ValueTypeIn, const In
 {
     Field<IndexTypeOut> colIdxsTmp(exec, in.colIdxs.size());
     Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size());
-    Field<ValueTypeOut> valuesTmp(exec, in.values.data(), in.values.size());
+    Field<ValueTypeOut> valuesTmp(exec, in.values.size());
 
     parallelFor(colIdxsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.colIdxs[i]); });
     parallelFor(rowPtrsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.rowOffs[i]); });
-- 
2.43.0


From 799650c0471db5fe93319588c2eac711e9a418e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 17/47] fix: matrix entries are found in rows that are not
 sorted by column

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index fed8042..b2aabb1 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -55,7 +55,6 @@ struct CSRMatrixView
             {
                 return values[localCol];
             }
-            if (colIdxs[localCol] > j) break;
         }
         Kokkos::abort("Memory not allocated for CSR matrix component.");
         return values[values.size()]; // compiler warning suppression.
-- 
2.43.0


From c6d58cc92c3da569bfe742fb97a47cdb04078691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:51 +0000
Subject: [PATCH 18/47] fix: source terms are no longer dropped from
 expressions

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
index c06de33..6e7bbd0 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp
@@ -21,6 +21,8 @@ class SourceTerm : public dsl::OperatorMixin<VolumeField<ValueType>>
 
 public:
 
+    using FieldValueType = ValueType;
+
     SourceTerm(
         dsl::Operator::Type termType,
         VolumeField<scalar>& coefficients,
-- 
2.43.0


From 8154c45b06816c0bc7138251a7e5b363ad1b02d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 19/47] fix: time integrators receive the solution dictionary,
 not the schemes

---
 include/NeoFOAM/dsl/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index a99d241..3ff3267 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -54,7 +54,7 @@ void solve(
     {
         // integrate equations in time
         timeIntegration::TimeIntegration<FieldType> timeIntegrator(
-            fvSchemes.subDict("ddtSchemes"), fvSchemes
+            fvSchemes.subDict("ddtSchemes"), fvSolution
         );
         timeIntegrator.solve(exp, solution, t, dt);
     }
-- 
2.43.0


From 71175485bdba7ac11a9f7d48c295b46a6024d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 20/47] fix: implicit solves correct the boundary conditions of
 the solution

---
 include/NeoFOAM/dsl/solver.hpp                    | 1 +
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index 3ff3267..b44fca1 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -83,6 +83,7 @@ void solve(
 
         auto solver = NeoFOAM::la::Solver(solution.exec(), fvSolution);
         solver.solve(ls, solution.internalField());
+        solution.correctBoundaryConditions();
     }
 }
 
diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index b09aa6c..e05fdba 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -52,7 +52,6 @@ public:
         SolutionFieldType& oldSolutionField = finiteVolume::cellCentred::oldTime(solutionField);
 
         // solutionField.internalField() = oldSolutionField.internalField() - source * dt;
-        // solutionField.correctBoundaryConditions();
         // solve sparse matrix system
         using ValueType = typename SolutionFieldType::ElementType;
 
@@ -70,6 +69,7 @@ public:
 
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
+        solutionField.correctBoundaryConditions();
 
         // check if executor is GPU
         if (std::holds_alternative<NeoFOAM::GPUExecutor>(eqn.exec()))
-- 
2.43.0


From adc4fbd82d54e1adfcc09890579e5b7ac9831c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 21/47] fix: an implicit step no longer ignores the explicit
 operators of the equation

---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index e05fdba..b82f47a 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -67,6 +67,15 @@ public:
         auto values = ls.matrix().values();
         eqn.implicitOperation(ls, t, dt);
 
+        // subtract the explicit source term from the rhs
+        auto [vol, expSource, rhs] =
+            spans(solutionField.mesh().cellVolumes(), source, ls.rhs());
+        parallelFor(
+            solutionField.exec(),
+            {0, rhs.size()},
+            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSource[i] * vol[i]; }
+        );
+
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
         solutionField.correctBoundaryConditions();
-- 
2.43.0


From 83c6e1300c297550ab1b7ea468fd7b00947b39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 22/47] fix: explicit divergence of vector fields is no longer
 dropped from expressions

---
 .../finiteVolume/cellCentred/operators/divOperator.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
index b0c0711..08c9de9 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
@@ -126,10 +126,10 @@ public:
           faceFlux_(faceFlux), divOperatorStrategy_(nullptr) {};
 
 
-    void explicitOperation(Field<scalar>& source) const
+    void explicitOperation(Field<ValueType>& source) const
     {
         NF_ASSERT(divOperatorStrategy_, "DivOperatorStrategy not initialized");
-        NeoFOAM::Field<NeoFOAM::scalar> tmpsource(source.exec(), source.size(), 0.0);
+        NeoFOAM::Field<ValueType> tmpsource(source.exec(), source.size(), zero<ValueType>());
         const auto operatorScaling = this->getCoefficient();
         divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), operatorScaling);
         source += tmpsource;
-- 
2.43.0


From 496bb2e427279e6f0b6db0a21310781c5b016633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 23/47] fix: solving an assembled expression no longer ends the
 program after the solution

---
 include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 5870777..7ab3634 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -151,7 +151,6 @@ public:
             auto exec = psi_.exec();
             auto solver = NeoFOAM::la::Solver(exec, fvSolution_);
             solver.solve(ls_, psi_.internalField());
-            NF_ERROR_EXIT("No linear solver is available, build with -DNEOFOAM_WITH_GINKGO=ON");
         }
     }
 
-- 
2.43.0


From 85891990162069bf1023ad8dae932c220d34169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 24/47] fix: an expression can be added to itself

---
 include/NeoFOAM/dsl/expression.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/dsl/expression.hpp b/include/NeoFOAM/dsl/expression.hpp
index b654e1b..46f7524 100644
--- a/include/NeoFOAM/dsl/expression.hpp
+++ b/include/NeoFOAM/dsl/expression.hpp
@@ -109,13 +109,18 @@ public:
 
     void addExpression(const Expression& equation)
     {
-        for (auto& oper : equation.temporalOperators_)
+        // the added equation can be this equation, hence its terms are counted up front
+        const size_t nTemporal = equation.temporalOperators_.size();
+        const size_t nSpatial = equation.spatialOperators_.size();
+        temporalOperators_.reserve(temporalOperators_.size() + nTemporal);
+        spatialOperators_.reserve(spatialOperators_.size() + nSpatial);
+        for (size_t i = 0; i < nTemporal; i++)
         {
-            temporalOperators_.push_back(oper);
+            temporalOperators_.push_back(equation.temporalOperators_[i]);
         }
-        for (auto& oper : equation.spatialOperators_)
+        for (size_t i = 0; i < nSpatial; i++)
         {
-            spatialOperators_.push_back(oper);
+            spatialOperators_.push_back(equation.spatialOperators_[i]);
         }
     }
 
-- 
2.43.0


From ac72f46b8470349f456ccc03cd1bb92a41541052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 25/47] fix: the explicit time derivative applies its
 coefficient

---
 src/finiteVolume/cellCentred/operators/ddtOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
index 35dea90..75a9e19 100644
--- a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
+++ b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
@@ -18,6 +18,7 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
 {
     const scalar dtInver = 1.0 / dt;
     const auto vol = this->getField().mesh().cellVolumes().view();
+    const auto operatorScaling = this->getCoefficient();
     auto [sourceSpan, field, oldField] =
         spans(source, this->field_.internalField(), oldTime(this->field_).internalField());
 
@@ -25,7 +26,8 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
         source.exec(),
         source.range(),
         KOKKOS_LAMBDA(const size_t celli) {
-            sourceSpan[celli] += dtInver * (field[celli] - oldField[celli]) * vol[celli];
+            sourceSpan[celli] +=
+                operatorScaling[celli] * dtInver * (field[celli] - oldField[celli]) * vol[celli];
         }
     );
 }
-- 
2.43.0


From 4cb11a41ec568e176143b0a772c7a0ca01d7760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 26/47] fix: an assembled explicit time derivative is not
 multiplied by the cell volume twice

---
 .../NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index 7ab3634..e0fd41e 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -80,8 +80,11 @@ public:
     {
         auto vol = psi_.mesh().cellVolumes().view();
         auto expSource = expr_.explicitOperation(psi_.mesh().nCells());
-        expr_.explicitOperation(expSource, t, dt);
         auto expSourceView = expSource.view();
+        // in contrast to the spatial terms the temporal terms are already integrated over the cells
+        Field<ValueType> expTemporal(exec(), psi_.mesh().nCells(), zero<ValueType>());
+        expr_.explicitOperation(expTemporal, t, dt);
+        auto expTemporalView = expTemporal.view();
         fill(ls_.rhs(), zero<ValueType>());
         fill(ls_.matrix().values(), zero<ValueType>());
         expr_.implicitOperation(ls_);
@@ -92,7 +95,9 @@ public:
         NeoFOAM::parallelFor(
             exec(),
             {0, rhs.size()},
-            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSourceView[i] * vol[i]; }
+            KOKKOS_LAMBDA(const size_t i) {
+                rhs[i] -= expSourceView[i] * vol[i] + expTemporalView[i];
+            }
         );
     }
 
-- 
2.43.0


From 163dbaa9f747c9f47c0f8791ce0827ef2c4fc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:52 +0000
Subject: [PATCH 27/47] fix: implicit solves use the sparsity pattern the
 operators assemble with

---
 include/NeoFOAM/dsl/solver.hpp                    | 6 ++++--
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 9 +++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index b44fca1..0e6db3b 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -63,11 +63,13 @@ void solve(
         // solve sparse matrix system
         using ValueType = typename FieldType::ElementType;
 
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solution.mesh());
+        // the operators use the pattern cached for the mesh, its order of entries is not unique
+        auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solution.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         exp.implicitOperation(ls);
         auto expTmp = exp.explicitOperation(solution.mesh().nCells());
diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index b82f47a..c24e9ba 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -56,11 +56,13 @@ public:
         using ValueType = typename SolutionFieldType::ElementType;
 
         // TODO decouple from fvcc specific implementation
-        auto sparsity = NeoFOAM::finiteVolume::cellCentred::SparsityPattern(solutionField.mesh());
+        // the operators use the pattern cached for the mesh, its order of entries is not unique
+        auto sparsity =
+            NeoFOAM::finiteVolume::cellCentred::SparsityPattern::readOrCreate(solutionField.mesh());
         auto ls = la::createEmptyLinearSystem<
             ValueType,
             localIdx,
-            finiteVolume::cellCentred::SparsityPattern>(sparsity);
+            finiteVolume::cellCentred::SparsityPattern>(*sparsity);
 
         eqn.implicitOperation(ls);
 
@@ -68,8 +70,7 @@ public:
         eqn.implicitOperation(ls, t, dt);
 
         // subtract the explicit source term from the rhs
-        auto [vol, expSource, rhs] =
-            spans(solutionField.mesh().cellVolumes(), source, ls.rhs());
+        auto [vol, expSource, rhs] = spans(solutionField.mesh().cellVolumes(), source, ls.rhs());
         parallelFor(
             solutionField.exec(),
             {0, rhs.size()},
-- 
2.43.0


From d62e378fb2874a0f3b735b9d2f4154ddfbb886ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 28/47] fix: registering a field as another type leaves no
 unlinked field in the collection

---
 include/NeoFOAM/core/database/fieldCollection.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/core/database/fieldCollection.hpp b/include/NeoFOAM/core/database/fieldCollection.hpp
index 4e0b0e4..c85f2b3 100644
--- a/include/NeoFOAM/core/database/fieldCollection.hpp
+++ b/include/NeoFOAM/core/database/fieldCollection.hpp
@@ -339,12 +339,13 @@ public:
             throw std::runtime_error("Document is not valid");
         }
 
-        std::string key = insert(doc);
-        FieldDocument& fd = fieldDoc(key);
-        FieldType& field = fd.field<FieldType>();
-        field.key = key;
+        // link the field before it is inserted: a document that does not hold a FieldType is
+        // rejected here, without leaving an unlinked field in the collection
+        FieldType& field = doc.field<FieldType>();
+        field.key = doc.id();
         field.fieldCollectionName = name();
-        return field;
+        std::string key = insert(doc);
+        return fieldDoc(key).field<FieldType>();
     }
 };
 
-- 
2.43.0


From 328a26ee9e58408820c05f807d271fd685a5fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 29/47] fix: copies of the Ginkgo and PETSc solvers had no
 solver

---
 include/NeoFOAM/linearAlgebra/ginkgo.hpp | 3 +--
 include/NeoFOAM/linearAlgebra/petsc.hpp  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/ginkgo.hpp b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
index 7b2f279..dcf2ff8 100644
--- a/include/NeoFOAM/linearAlgebra/ginkgo.hpp
+++ b/include/NeoFOAM/linearAlgebra/ginkgo.hpp
@@ -64,8 +64,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<GinkgoSolver>(*this);
     }
 
 private:
diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index d5d748a..0a844b3 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -70,8 +70,7 @@ public:
 
     virtual std::unique_ptr<SolverFactory> clone() const final
     {
-        // FIXME
-        return {};
+        return std::make_unique<petscSolver>(*this);
     }
 
 
-- 
2.43.0


From 80f12f82b5b5dc98b26aeb1bbbfbdfd1f8a78446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 30/47] fix: PETSc solver: the solution is read from host
 memory on every executor

---
 include/NeoFOAM/linearAlgebra/petsc.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index 0a844b3..8c2259c 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -110,10 +110,14 @@ public:
         PetscCallVoid(KSPSolve(ksp, rhs, sol));
 
 
-        PetscScalar* x_help = static_cast<PetscScalar*>(x.data());
+        // VecGetArray gives host memory, whatever the type of the vector
+        PetscScalar* x_help = nullptr;
         VecGetArray(sol, &x_help);
 
-        NeoFOAM::Field<NeoFOAM::scalar> x2(x.exec(), static_cast<scalar*>(x_help), nrows, x.exec());
+        NeoFOAM::Field<NeoFOAM::scalar> x2(
+            x.exec(), static_cast<scalar*>(x_help), nrows, SerialExecutor()
+        );
+        VecRestoreArray(sol, &x_help);
         x = x2;
     }
 };
-- 
2.43.0


From 8e3195a93b28cd6512578004c47cb09e42506929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:30 +0000
Subject: [PATCH 31/47] fix: PETSc solver: errors reported by the library reach
 the caller

---
 include/NeoFOAM/linearAlgebra/petsc.hpp       | 14 ++++---
 .../linearAlgebra/petscSolverContext.hpp      | 41 ++++++++++++-------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index 8c2259c..e636f72 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -77,6 +77,8 @@ public:
     virtual void solve(const LinearSystem<scalar, localIdx>& sys, Field<scalar>& x) const final
     {
 
+        using NeoFOAM::la::petscSolverContext::check;
+
         Mat Amat;
         KSP ksp;
 
@@ -93,31 +95,31 @@ public:
         sol = petsctx.sol();
         ksp = petsctx.ksp();
 
-        VecSetValuesCOO(rhs, sys.rhs().data(), ADD_VALUES);
-        MatSetValuesCOO(Amat, sys.matrix().values().data(), ADD_VALUES);
+        check(VecSetValuesCOO(rhs, sys.rhs().data(), ADD_VALUES));
+        check(MatSetValuesCOO(Amat, sys.matrix().values().data(), ADD_VALUES));
 
         // MatView(Amat_, PETSC_VIEWER_STDOUT_WORLD);
         // VecView(rhs_, PETSC_VIEWER_STDOUT_WORLD);
 
 
         // KSPCreate(PETSC_COMM_WORLD, &ksp_);
-        KSPSetOperators(ksp, Amat, Amat);
+        check(KSPSetOperators(ksp, Amat, Amat));
         // KSPSetTolerances(ksp, 1.e-9, PETSC_DEFAULT, PETSC_DEFAULT, PETSC_DEFAULT);
         // KSPSetFromOptions(ksp_);
         // KSPSetUp(ksp);
 
 
-        PetscCallVoid(KSPSolve(ksp, rhs, sol));
+        check(KSPSolve(ksp, rhs, sol));
 
 
         // VecGetArray gives host memory, whatever the type of the vector
         PetscScalar* x_help = nullptr;
-        VecGetArray(sol, &x_help);
+        check(VecGetArray(sol, &x_help));
 
         NeoFOAM::Field<NeoFOAM::scalar> x2(
             x.exec(), static_cast<scalar*>(x_help), nrows, SerialExecutor()
         );
-        VecRestoreArray(sol, &x_help);
+        check(VecRestoreArray(sol, &x_help));
         x = x2;
     }
 };
diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index 52960c7..650fc35 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -12,6 +12,7 @@
 #include <petscmat.h>
 #include <petscksp.h>
 
+#include "NeoFOAM/core/error.hpp"
 #include "NeoFOAM/fields/field.hpp"
 #include "NeoFOAM/core/dictionary.hpp"
 #include "NeoFOAM/linearAlgebra/linearSystem.hpp"
@@ -22,6 +23,15 @@
 namespace NeoFOAM::la::petscSolverContext
 {
 
+//- Throws if a PETSc call reported an error
+inline void check(PetscErrorCode error)
+{
+    if (error)
+    {
+        NF_THROW("PETSc reported error " + std::to_string(static_cast<int>(error)));
+    }
+}
+
 template<typename ValueType>
 class petscSolverContext
 {
@@ -112,34 +122,35 @@ public:
 
         // move all not necessary staff to outer most scope since matrix  has
         // to be preallocated only once every time the mesh changes
-        PetscInitialize(NULL, NULL, 0, NULL);
+        check(PetscInitialize(NULL, NULL, 0, NULL));
 
-        MatCreate(PETSC_COMM_WORLD, &Amat_);
-        MatSetSizes(Amat_, sys.matrix().nRows(), sys.rhs().size(), PETSC_DECIDE, PETSC_DECIDE);
+        check(MatCreate(PETSC_COMM_WORLD, &Amat_));
+        check(MatSetSizes(Amat_, sys.matrix().nRows(), sys.rhs().size(), PETSC_DECIDE, PETSC_DECIDE)
+        );
 
-        VecCreate(PETSC_COMM_SELF, &rhs_);
-        VecSetSizes(rhs_, PETSC_DECIDE, nrows);
+        check(VecCreate(PETSC_COMM_SELF, &rhs_));
+        check(VecSetSizes(rhs_, PETSC_DECIDE, nrows));
 
         std::string execName = std::visit([](const auto& e) { return e.name(); }, exec_);
 
         if (execName == "GPUExecutor")
         {
-            VecSetType(rhs_, VECKOKKOS);
-            MatSetType(Amat_, MATAIJKOKKOS);
+            check(VecSetType(rhs_, VECKOKKOS));
+            check(MatSetType(Amat_, MATAIJKOKKOS));
         }
         else
         {
-            VecSetType(rhs_, VECSEQ);
-            MatSetType(Amat_, MATSEQAIJ);
+            check(VecSetType(rhs_, VECSEQ));
+            check(MatSetType(Amat_, MATSEQAIJ));
         }
-        VecDuplicate(rhs_, &sol_);
+        check(VecDuplicate(rhs_, &sol_));
 
-        VecSetPreallocationCOO(rhs_, nrows, rhsIdx);
-        MatSetPreallocationCOO(Amat_, size, colIdx, rowIdx);
+        check(VecSetPreallocationCOO(rhs_, nrows, rhsIdx));
+        check(MatSetPreallocationCOO(Amat_, size, colIdx, rowIdx));
 
-        KSPCreate(PETSC_COMM_WORLD, &ksp_);
-        KSPSetFromOptions(ksp_);
-        KSPSetOperators(ksp_, Amat_, Amat_);
+        check(KSPCreate(PETSC_COMM_WORLD, &ksp_));
+        check(KSPSetFromOptions(ksp_));
+        check(KSPSetOperators(ksp_, Amat_, Amat_));
 
 
         init_ = true;
-- 
2.43.0


From 247fc7b1cd64b79a53a846432cd54beda93ba60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 32/47] fix: PETSc solver: index arrays of large systems do not
 fit on the stack

---
 include/NeoFOAM/linearAlgebra/petscSolverContext.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index 650fc35..3507ce9 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -7,6 +7,8 @@
 
 #if NF_WITH_PETSC
 
+#include <vector>
+
 #include <Kokkos_Core.hpp>
 #include <petscvec_kokkos.hpp>
 #include <petscmat.h>
@@ -80,9 +82,9 @@ public:
     {
         std::size_t size = sys.matrix().values().size();
         std::size_t nrows = sys.rhs().size();
-        PetscInt colIdx[size];
-        PetscInt rowIdx[size];
-        PetscInt rhsIdx[nrows];
+        std::vector<PetscInt> colIdx(size);
+        std::vector<PetscInt> rowIdx(size);
+        std::vector<PetscInt> rhsIdx(nrows);
 
         // colIdx = sys.matrix().colIdxs().data();
 
@@ -145,8 +147,8 @@ public:
         }
         check(VecDuplicate(rhs_, &sol_));
 
-        check(VecSetPreallocationCOO(rhs_, nrows, rhsIdx));
-        check(MatSetPreallocationCOO(Amat_, size, colIdx, rowIdx));
+        check(VecSetPreallocationCOO(rhs_, nrows, rhsIdx.data()));
+        check(MatSetPreallocationCOO(Amat_, size, colIdx.data(), rowIdx.data()));
 
         check(KSPCreate(PETSC_COMM_WORLD, &ksp_));
         check(KSPSetFromOptions(ksp_));
-- 
2.43.0


From ce22ca6292b522e28fa63e3655fb2b3545704234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:49 +0000
Subject: [PATCH 33/47] fix: copies of the integrator's vectors referred to the
 vectors they were copied from

---
 include/NeoFOAM/timeIntegration/sundials.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/timeIntegration/sundials.hpp b/include/NeoFOAM/timeIntegration/sundials.hpp
index 5d8ba05..46ac305 100644
--- a/include/NeoFOAM/timeIntegration/sundials.hpp
+++ b/include/NeoFOAM/timeIntegration/sundials.hpp
@@ -269,7 +269,7 @@ public:
     SKVectorSerial() {};
     ~SKVectorSerial() = default;
     SKVectorSerial(const SKVectorSerial& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorSerial(SKVectorSerial&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorSerial& operator=(const SKVectorSerial& other) = delete;
@@ -306,7 +306,7 @@ public:
     SKVectorHostDefault() = default;
     ~SKVectorHostDefault() = default;
     SKVectorHostDefault(const SKVectorHostDefault& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorHostDefault(SKVectorHostDefault&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorHostDefault& operator=(const SKVectorHostDefault& other) = delete;
@@ -341,7 +341,7 @@ public:
     SKVectorDefault() = default;
     ~SKVectorDefault() = default;
     SKVectorDefault(const SKVectorDefault& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorDefault(SKVectorDefault&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorDefault& operator=(const SKVectorDefault& other) = delete;
-- 
2.43.0


From efb5d20cb35f665891146bf804a20041db811b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 34/47] fix: copying a Runge-Kutta integrator

---
 include/NeoFOAM/timeIntegration/rungeKutta.hpp |  4 ++--
 src/timeIntegration/rungeKutta.cpp             | 15 +++------------
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/NeoFOAM/timeIntegration/rungeKutta.hpp b/include/NeoFOAM/timeIntegration/rungeKutta.hpp
index 90adcf7..eb5427d 100644
--- a/include/NeoFOAM/timeIntegration/rungeKutta.hpp
+++ b/include/NeoFOAM/timeIntegration/rungeKutta.hpp
@@ -79,8 +79,8 @@ public:
     /**
      * @brief Copy constructor.
      * @param other The RungeKutta instance to copy from.
-     * @note Sundials Kokkos vectors have copy constructors, N_Vectors should be constructed from
-     * the Kokkos vectors.
+     * @note The configuration is copied and the Sundials context is shared. The copy sets up its
+     * own Sundials solver with the first step it solves.
      */
     RungeKutta(const RungeKutta& other);
 
diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 9163cf7..b8fc37d 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -8,18 +8,9 @@ namespace NeoFOAM::timeIntegration
 
 template<typename SolutionFieldType>
 RungeKutta<SolutionFieldType>::RungeKutta(const RungeKutta<SolutionFieldType>& other)
-    : Base(other), solution_(other.solution_), initialConditions_(other.initialConditions_),
-      pdeExpr_(
-          other.pdeExpr_
-              ? std::make_unique<NeoFOAM::dsl::Expression<ValueType>>(other.pdeExpr_->exec())
-              : nullptr
-      )
-{
-    sunrealtype timeCurrent;
-    void* ark = reinterpret_cast<void*>(other.ODEMemory_.get());
-    ARKodeGetCurrentTime(ark, &timeCurrent);
-    initODEMemory(timeCurrent); // will finalise construction of the ode memory.
-}
+    // the solver itself is not copied, the copy sets up its own with the first step it solves
+    : Base(other), context_(other.context_)
+{}
 
 template<typename SolutionFieldType>
 RungeKutta<SolutionFieldType>::RungeKutta(RungeKutta<SolutionFieldType>&& other)
-- 
2.43.0


From 95bd97f0052457c12cf0afb3de178f0712ae58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 35/47] fix: Runge-Kutta steps leave the boundary conditions of
 the solution corrected

---
 src/timeIntegration/rungeKutta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index b8fc37d..066116f 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -42,6 +42,7 @@ void RungeKutta<SolutionFieldType>::solve(
 
     // Copy solution out. (Fence is in sundails free)
     NeoFOAM::sundials::sunNVectorToField(solution_.sunNVector(), solutionField.internalField());
+    solutionField.correctBoundaryConditions();
     oldSolutionField.internalField() = solutionField.internalField();
 }
 
-- 
2.43.0


From 2df8fde7ba13b2ac76cbe15562cc8c4e7d4429fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 36/47] fix: errors while a Runge-Kutta step is set up are
 reported

---
 src/timeIntegration/rungeKutta.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 066116f..808b430 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -32,7 +32,8 @@ void RungeKutta<SolutionFieldType>::solve(
     void* ark = reinterpret_cast<void*>(ODEMemory_.get());
 
     // Perform time integration
-    ARKodeSetFixedStep(ark, dt);
+    auto setReturn = ARKodeSetFixedStep(ark, dt);
+    NF_ASSERT_EQUAL(setReturn, 0);
     NeoFOAM::scalar timeOut;
     auto stepReturn = ARKodeEvolve(ark, t + dt, solution_.sunNVector(), &timeOut, ARK_ONE_STEP);
 
@@ -120,17 +121,22 @@ void RungeKutta<SolutionFieldType>::initODEMemory(const scalar t)
         initialConditions_.sunNVector(),
         *context_
     );
+    NF_ASSERT(ark != nullptr, "ERKStepCreate failed");
     ODEMemory_.reset(reinterpret_cast<char*>(ark));
 
     // Initialize ERKStep solver
-    ERKStepSetTableNum(
+    auto setupReturn = ERKStepSetTableNum(
         ark,
         NeoFOAM::sundials::stringToERKTable(
             this->schemeDict_.template get<std::string>("Runge-Kutta-Method")
         )
     );
-    ARKodeSetUserData(ark, pdeExpr_.get());
-    ARKodeSStolerances(ODEMemory_.get(), 1.0, 1.0); // If we want ARK we will revisit.
+    NF_ASSERT_EQUAL(setupReturn, 0);
+    setupReturn = ARKodeSetUserData(ark, pdeExpr_.get());
+    NF_ASSERT_EQUAL(setupReturn, 0);
+    // If we want ARK we will revisit.
+    setupReturn = ARKodeSStolerances(ODEMemory_.get(), 1.0, 1.0);
+    NF_ASSERT_EQUAL(setupReturn, 0);
 }
 
 template class RungeKutta<finiteVolume::cellCentred::VolumeField<scalar>>;
-- 
2.43.0


From b6e01602b48d93ae88c9aa10ba118bede3c52587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 37/47] fix: a Runge-Kutta integrator that is used again solves
 the equation it is given

---
 src/timeIntegration/rungeKutta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 808b430..346e671 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -24,10 +24,10 @@ void RungeKutta<SolutionFieldType>::solve(
     dsl::Expression<ValueType>& exp, SolutionFieldType& solutionField, scalar t, const scalar dt
 )
 {
-    // Setup sundials if required, load the current solution for temporal integration
+    // Setup sundials for this step, load the current solution for temporal integration
     SolutionFieldType& oldSolutionField =
         NeoFOAM::finiteVolume::cellCentred::oldTime(solutionField);
-    if (pdeExpr_ == nullptr) initSUNERKSolver(exp, oldSolutionField, t);
+    initSUNERKSolver(exp, oldSolutionField, t);
     NeoFOAM::sundials::fieldToSunNVector(oldSolutionField.internalField(), solution_.sunNVector());
     void* ark = reinterpret_cast<void*>(ODEMemory_.get());
 
-- 
2.43.0


From 38fcc3e66b82dbbe55fd452cbf4cdb812636dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 38/47] fix: the memory that holds the integrator's context is
 released

---
 include/NeoFOAM/timeIntegration/sundials.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/timeIntegration/sundials.hpp b/include/NeoFOAM/timeIntegration/sundials.hpp
index 46ac305..a87fbe0 100644
--- a/include/NeoFOAM/timeIntegration/sundials.hpp
+++ b/include/NeoFOAM/timeIntegration/sundials.hpp
@@ -24,13 +24,14 @@ namespace NeoFOAM::sundials
 /**
  * @brief Custom deleter for SUNContext shared pointers.
  * @param ctx Pointer to the SUNContext to be freed, can be nullptr.
- * @details Safely frees the context if it's the last reference.
+ * @details Safely frees the context and the memory that holds it if it's the last reference.
  */
 inline auto SUN_CONTEXT_DELETER = [](SUNContext* ctx)
 {
     if (ctx != nullptr)
     {
         SUNContext_Free(ctx);
+        delete ctx;
     }
 };
 
-- 
2.43.0


From 0ee3d64e7786bb598280d0cc0878900f93737dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 39/47] fix: compare a field with a view in equal()

equal(const Field&, View) called view() on the temporary host copy, which is a deleted overload, so the function template did not compile when instantiated. Keep the host copy alive for the comparison.
---
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index bf14c75..fe75dc0 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -192,7 +192,8 @@ bool equal(const Field<T>& field, const Field<T>& field2)
 template<typename T>
 bool equal(const Field<T>& field, View<T> span2)
 {
-    auto hostView = field.copyToHost().view();
+    auto hostField = field.copyToHost();
+    auto hostView = hostField.view();
 
     if (hostView.size() != span2.size())
     {
-- 
2.43.0


From eddc4576398906ea3dbcac9f3fd6a0f85aac9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:52 +0000
Subject: [PATCH 40/47] fix: interpolate with a flux returns fields of any type

---
 .../cellCentred/interpolation/surfaceInterpolation.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp
index 1a91d1d..523e6d9 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp
@@ -146,7 +146,7 @@ public:
     }
 
     SurfaceField<ValueType>
-    interpolate(const SurfaceField<ValueType>& flux, const VolumeField<ValueType>& src) const
+    interpolate(const SurfaceField<scalar>& flux, const VolumeField<ValueType>& src) const
     {
         std::string name = "interpolated_" + src.name;
         SurfaceField<ValueType> dst(
-- 
2.43.0


From bf7c012955634e0d3479adc4c1d79994edaa3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:52 +0000
Subject: [PATCH 41/47] fix: convert linear systems to other types

---
 include/NeoFOAM/linearAlgebra/linearSystem.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/linearSystem.hpp b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
index b53c550..b8a366b 100644
--- a/include/NeoFOAM/linearAlgebra/linearSystem.hpp
+++ b/include/NeoFOAM/linearAlgebra/linearSystem.hpp
@@ -133,11 +133,12 @@ LinearSystem<ValueTypeOut, IndexTypeOut>
 convertLinearSystem(const LinearSystem<ValueTypeIn, IndexTypeIn>& ls)
 {
     auto exec = ls.exec();
-    Field<ValueTypeOut> convertedRhs(exec, ls.rhs().data(), ls.rhs().size());
+    Field<ValueTypeOut> convertedRhs(exec, ls.rhs().size());
+    const auto rhs = ls.rhs().view();
+    parallelFor(convertedRhs, KOKKOS_LAMBDA(const size_t i) { return ValueTypeOut(rhs[i]); });
     return {
-        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view.matrix),
-        convertedRhs,
-        ls.sparsityPattern()
+        convert<ValueTypeIn, IndexTypeIn, ValueTypeOut, IndexTypeOut>(exec, ls.view().matrix),
+        convertedRhs
     };
 }
 
-- 
2.43.0


From 49f4d53855149b23b74d8b93952cde6eddd0b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:52 +0000
Subject: [PATCH 42/47] fix: assemble(), setReference() and operator& of an
 expression can be used

---
 .../NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
index e0fd41e..3a88523 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp
@@ -123,7 +123,9 @@ public:
             auto expSource = expr_.explicitOperation(psi_.mesh().nCells());
             auto expSourceSpan = expSource.view();
 
-            ls_ = expr_.implicitOperation();
+            fill(ls_.rhs(), zero<ValueType>());
+            fill(ls_.matrix().values(), zero<ValueType>());
+            expr_.implicitOperation(ls_);
             auto rhs = ls_.rhs().view();
             // we subtract the explicit source term from the rhs
             NeoFOAM::parallelFor(
@@ -163,7 +165,7 @@ public:
     {
         // TODO currently assumes that matrix is already assembled
         const auto diagOffset = sparsityPattern_->diagOffset().view();
-        const auto rowPtrs = ls_.matrix().rowPtrs();
+        const auto rowPtrs = std::as_const(ls_).matrix().rowPtrs().view();
         auto rhs = ls_.rhs().view();
         auto values = ls_.matrix().values().view();
         NeoFOAM::parallelFor(
@@ -203,7 +205,7 @@ operator&(const Expression<ValueType, IndexType> expr, const VolumeField<ValueTy
 
     auto [result, b, x] =
         spans(resultField.internalField(), expr.linearSystem().rhs(), psi.internalField());
-    const auto [values, colIdxs, rowPtrs] = expr.linearSystem().view();
+    const auto [values, colIdxs, rowPtrs] = expr.linearSystem().view().matrix;
 
     NeoFOAM::parallelFor(
         resultField.exec(),
-- 
2.43.0


From c80340bbee3bedab18f8c2ae242a14ab90daa909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:19 +0000
Subject: [PATCH 43/47] fix: a divergence operator for any field type can be
 given its scheme

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
index 08c9de9..33330a4 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp
@@ -114,7 +114,7 @@ public:
         VolumeField<ValueType>& phi,
         std::unique_ptr<DivOperatorFactory<ValueType>> divOperatorStrategy
     )
-        : dsl::OperatorMixin<VolumeField<scalar>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
+        : dsl::OperatorMixin<VolumeField<ValueType>>(phi.exec(), dsl::Coeff(1.0), phi, termType),
           faceFlux_(faceFlux), divOperatorStrategy_(std::move(divOperatorStrategy)) {};
 
     DivOperator(
-- 
2.43.0


From f633f031a3e24f691ce12c9aed1a89f62e4dcc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:19 +0000
Subject: [PATCH 44/47] fix: the Laplacian of a field of any type can be
 written into a field

---
 .../finiteVolume/cellCentred/operators/laplacianOperator.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
index 297f881..7686f9d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp
@@ -147,7 +147,7 @@ public:
     //     laplacianOperatorStrategy_->laplacian(ls, gamma_, getField());
     // };
 
-    void laplacian(VolumeField<scalar>& lapPhi)
+    void laplacian(VolumeField<ValueType>& lapPhi)
     {
         const auto operatorScaling = this->getCoefficient();
         laplacianOperatorStrategy_->laplacian(lapPhi, gamma_, this->getField(), operatorScaling);
-- 
2.43.0


From 0b861cec0e595b9ce18af2add30b8fbd26d85c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:34 +0000
Subject: [PATCH 45/47] fix: an empty domain field can be constructed on an
 executor

---
 include/NeoFOAM/fields/domainField.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/domainField.hpp b/include/NeoFOAM/fields/domainField.hpp
index 418855a..f1e6d0b 100644
--- a/include/NeoFOAM/fields/domainField.hpp
+++ b/include/NeoFOAM/fields/domainField.hpp
@@ -33,7 +33,7 @@ class DomainField
 public:
 
     DomainField(const Executor& exec)
-        : exec_(exec), internalField_(exec, 0), boundaryFields_(exec, 0, 0)
+        : exec_(exec), internalField_(exec, 0), boundaryFields_(exec, std::vector<localIdx> {0})
     {}
 
     DomainField(const Executor& exec, size_t nCells, std::vector<localIdx> offsets)
-- 
2.43.0


From 2eca072d9e0f128003460d801be0cf0e2f758f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:46 +0000
Subject: [PATCH 46/47] fix: a field of vectors can be multiplied by a field of
 scalars

---
 include/NeoFOAM/fields/field.hpp              |  3 ++-
 include/NeoFOAM/fields/fieldFreeFunctions.hpp | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index fadbb29..70ee477 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -424,7 +424,8 @@ private:
      * @brief Checks if two fields are the same size and have the same executor.
      * @param rhs The field to compare with.
      */
-    void validateOtherField(const Field<ValueType>& rhs) const
+    template<typename OtherType>
+    void validateOtherField(const Field<OtherType>& rhs) const
     {
         NF_DEBUG_ASSERT(size() == rhs.size(), "Fields are not the same size.");
         NF_DEBUG_ASSERT(exec() == rhs.exec(), "Executors are not the same.");
diff --git a/include/NeoFOAM/fields/fieldFreeFunctions.hpp b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
index fe75dc0..a59c72e 100644
--- a/include/NeoFOAM/fields/fieldFreeFunctions.hpp
+++ b/include/NeoFOAM/fields/fieldFreeFunctions.hpp
@@ -140,6 +140,18 @@ void mul(Field<ValueType>& a, const Field<std::type_identity_t<ValueType>>& b)
     );
 }
 
+template<typename ValueType>
+    requires(!std::is_same_v<ValueType, scalar>)
+void mul(Field<ValueType>& a, const Field<scalar>& b)
+{
+    NeoFOAM_ASSERT_EQUAL_LENGTH(a, b);
+    auto viewA = a.view();
+    auto viewB = b.view();
+    parallelFor(
+        a, KOKKOS_LAMBDA(const size_t i) { return viewA[i] * viewB[i]; }
+    );
+}
+
 template<typename... Args>
 auto spans(Args&... fields)
 {
-- 
2.43.0


From e5f50391a995f4469af8bab309588cdd1d5df54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:39 +0000
Subject: [PATCH 47/47] fix: a surface field can be constructed from given
 field data

---
 .../finiteVolume/cellCentred/fields/surfaceField.hpp   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp b/include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp
index 1e07053..8f2ec96 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp
@@ -55,35 +55,41 @@ public:
     /* @brief Constructor for a surfaceField with a given internal field
      *
      * @param exec The executor
+     * @param fieldName The name of the field
      * @param mesh The underlying mesh
      * @param internalField the underlying internal field
      * @param boundaryConditions a vector of boundary conditions
      */
     SurfaceField(
         const Executor& exec,
+        std::string fieldName,
         const UnstructuredMesh& mesh,
         const DomainField<ValueType>& domainField,
         const std::vector<SurfaceBoundary<ValueType>>& boundaryConditions
     )
-        : GeometricFieldMixin<ValueType>(exec, mesh, domainField),
+        : GeometricFieldMixin<ValueType>(exec, fieldName, mesh, domainField),
           boundaryConditions_(boundaryConditions)
     {}
 
     /* @brief Constructor for a surfaceField with a given internal field
      *
      * @param exec The executor
+     * @param fieldName The name of the field
      * @param mesh The underlying mesh
      * @param internalField the underlying internal field
      * @param boundaryConditions a vector of boundary conditions
      */
     SurfaceField(
         const Executor& exec,
+        std::string fieldName,
         const UnstructuredMesh& mesh,
         const Field<ValueType>& internalField,
         const BoundaryFields<ValueType>& boundaryFields,
         const std::vector<SurfaceBoundary<ValueType>>& boundaryConditions
     )
-        : GeometricFieldMixin<ValueType>(exec, mesh, {exec, mesh, internalField, boundaryFields}),
+        : GeometricFieldMixin<ValueType>(
+            exec, fieldName, mesh, DomainField<ValueType>(exec, internalField, boundaryFields)
+        ),
           boundaryConditions_(boundaryConditions)
     {}
 
-- 
2.43.0

