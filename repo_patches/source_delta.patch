From 37388af2ecee8560c3245c933243ac5754d0a28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 01/66] fix: continue an IDE solver that was interrupted when
 its worklist was already empty

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 9f10b10..f5bc494 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -1756,7 +1756,12 @@ private:
   }
 
   bool doNext() {
-    assert(!WorkList.empty());
+    if (WorkList.empty()) {
+      // We may get here when continuing after being interrupted exactly when
+      // reaching the fixpoint
+      return false;
+    }
+
     auto [Edge, EF] = std::move(WorkList.back());
     WorkList.pop_back();
 
-- 
2.43.0


From d5d4361c6027f8604ecca6dbf103270a8a14132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 02/66] fix: guarantee progress when solving with an interval
 that is shorter than a step

---
 .../DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
index 65ae8a8..35036eb 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
@@ -15,6 +15,7 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <cstddef>
@@ -460,7 +461,8 @@ private:
 
     // Some initial number of propagations to get an idea, how long a
     // propagation takes. This may be adjusted in the future
-    size_t NumIterations = Interval.count() * 500;
+    // Always perform at least one step to guarantee progress.
+    size_t NumIterations = std::max<size_t>(Interval.count() * 500, 1);
 
     auto Start = std::chrono::steady_clock::now();
 
@@ -475,11 +477,14 @@ private:
         return false;
       }
 
-      // Adjust NumIterations
-      auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
-      auto NewNumIterations =
-          size_t(IterationsPerMilli * double(Interval.count()));
-      NumIterations = (NumIterations + 2 * NewNumIterations) / 3;
+      // Adjust NumIterations; keep it, if the clock is too coarse-grained
+      if (DeltaTime.count() > 0) {
+        auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
+        auto NewNumIterations =
+            size_t(IterationsPerMilli * double(Interval.count()));
+        NumIterations =
+            std::max<size_t>((NumIterations + 2 * NewNumIterations) / 3, 1);
+      }
     }
     auto End = std::chrono::steady_clock::now();
     return !IsCancellationRequested(End);
-- 
2.43.0


From f4761164b23c6efe39556ee1b062dcc2e81ec135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:15 +0000
Subject: [PATCH 03/66] fix: find equal edge functions when joining
 JoinEdgeFunctions, regardless of their addresses

---
 .../DataFlow/IfdsIde/EdgeFunctionUtils.h      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h b/include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h
index bfbc9d2..f846d6a 100644
--- a/include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h
+++ b/include/phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h
@@ -16,6 +16,7 @@
 #include "phasar/Utils/TypeTraits.h"
 
 #include "llvm/ADT/ArrayRef.h"
+#include "llvm/ADT/STLExtras.h"
 
 #include <type_traits>
 
@@ -361,7 +362,11 @@ template <typename L, uint8_t N> struct JoinEdgeFunction {
       return false;
     }
 
-    return llvm::equal(LHS.OtherEF, RHS.OtherEF);
+    // The OtherEFs are pairwise different, but not ordered
+    return LHS.OtherEF.size() == RHS.OtherEF.size() &&
+           llvm::all_of(LHS.OtherEF, [&RHS](const auto &EF) {
+             return llvm::is_contained(RHS.OtherEF, EF);
+           });
   }
 
   [[nodiscard]] static EdgeFunction<l_t> create(EdgeFunction<l_t> LHS,
@@ -383,10 +388,14 @@ template <typename L, uint8_t N> struct JoinEdgeFunction {
       return AllBottom<l_t>{};
     }
 
-    llvm::SmallVector<EdgeFunction<l_t>, N> JoinVec;
-
-    std::set_union(LVec.begin(), LVec.end(), RVec.begin(), RVec.end(),
-                   std::back_inserter(JoinVec));
+    // Note: We cannot rely on operator< here, as it is based on object-identity
+    // and hence, does not help finding equal edge functions
+    llvm::SmallVector<EdgeFunction<l_t>, N> JoinVec(LVec.begin(), LVec.end());
+    for (const auto &EF : RVec) {
+      if (!llvm::is_contained(JoinVec, EF)) {
+        JoinVec.push_back(EF);
+      }
+    }
     if (JoinVec.size() > N) {
       return AllBottom<l_t>{};
     }
-- 
2.43.0


From 2f543f9dd31ea2aad19d52be345bdc4db7385d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:33 +0000
Subject: [PATCH 04/66] fix: mapFactsToCaller respects PropagateZeroToCaller
 when globals are propagated

---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
index e994671..95d9c83 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
@@ -283,7 +283,9 @@ FlowFunctionPtrType<D, Container> mapFactsToCaller(
       if (ExitInstAndPropZero.getInt() &&
           LLVMZeroValue::isLLVMZeroValue(Source)) {
         Res.insert(Source);
-      } else if (CSAndPropGlob.getInt() && llvm::isa<llvm::Constant>(Source)) {
+      } else if (CSAndPropGlob.getInt() &&
+                 !LLVMZeroValue::isLLVMZeroValue(Source) &&
+                 llvm::isa<llvm::Constant>(Source)) {
         // Pass global variables as is, if desired
         // Globals could also be actual arguments, then the formal argument
         // needs to be generated below. Need llvm::Constant here to cover also
-- 
2.43.0


From 85e3be66f18f3762b35dd841191e1b7d1447d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:59 +0000
Subject: [PATCH 05/66] fix: keep BitVectorSet iterators valid when another set
 registers new elements

---
 include/phasar/Utils/BitVectorSet.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index 308245c..f8e9393 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -105,7 +105,7 @@ private:
         int NextIdx = Bits.find_next(PosPtr->first);
 
         if (NextIdx <= static_cast<int>(PosPtr->first)) {
-          PosPtr = Position.right.find(Bits.size());
+          PosPtr = Position.right.end();
           break;
         }
 
@@ -336,7 +336,7 @@ public:
   [[nodiscard]] iterator begin() {
     int Index = Bits.find_first();
     if (Index == -1) {
-      Index = Bits.size();
+      return end();
     }
     iterator BeginIter(Position.right.find(Index));
     BeginIter.setBits(Bits);
@@ -344,7 +344,7 @@ public:
   }
 
   [[nodiscard]] iterator end() {
-    iterator EndIter(Position.right.find(Bits.size()));
+    iterator EndIter(Position.right.end());
     EndIter.setBits(Bits);
     return EndIter;
   }
@@ -352,7 +352,7 @@ public:
   [[nodiscard]] const_iterator begin() const {
     int Index = Bits.find_first();
     if (Index == -1) {
-      Index = Bits.size();
+      return end();
     }
     const_iterator BeginIter(Position.right.find(Index));
     BeginIter.setBits(Bits);
@@ -360,7 +360,7 @@ public:
   }
 
   [[nodiscard]] const_iterator end() const {
-    const_iterator EndIter(Position.right.find(Bits.size()));
+    const_iterator EndIter(Position.right.end());
     EndIter.setBits(Bits);
     return EndIter;
   }
-- 
2.43.0


From a09b46c70951bcc60c51679bcf0ca0fe7925daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:59 +0000
Subject: [PATCH 06/66] fix: move BitVectorSet iterators over the elements of
 their set only

---
 include/phasar/Utils/BitVectorSet.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index f8e9393..7cea8e4 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -95,7 +95,7 @@ private:
 
     BitVectorSetIterator<D> &operator+=(const difference_type &Movement) {
       for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
+        ++*this;
       }
       return *this;
     }
@@ -125,17 +125,13 @@ private:
     }
 
     BitVectorSetIterator<D> operator+(const difference_type &Movement) {
-      auto OldPtr = PosPtr;
-      for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
-      }
       auto Temp(*this);
-      PosPtr = OldPtr;
+      Temp += Movement;
       return Temp;
     }
 
     difference_type operator-(const BitVectorSetIterator<D> &OtherIterator) {
-      return std::distance(OtherIterator.getPtr(), this->getPtr());
+      return std::distance(OtherIterator, *this);
     }
 
     // T& operator*(){return pos_ptr->second;}
-- 
2.43.0


From 370369b0879fe86e6019c1fa14620fa163062e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:59 +0000
Subject: [PATCH 07/66] fix: hash empty BitVectorSets equally, whatever they
 contained before

---
 include/phasar/Utils/BitVectorSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index 7cea8e4..1e5cde2 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -300,7 +300,7 @@ public:
 
   // NOLINTNEXTLINE(readability-identifier-naming) -- needed for ADL
   friend llvm::hash_code hash_value(const BitVectorSet &BV) noexcept {
-    if (BV.Bits.empty()) {
+    if (BV.empty()) {
       return {};
     }
     auto Words = BV.Bits.getData();
-- 
2.43.0


From 263b430fdd534e0ee7a5bcaba1323155f253aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 08/66] fix: do not use the freed first block of a StableVector
 after clear() and shrink_to_fit()

---
 include/phasar/Utils/StableVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/Utils/StableVector.h b/include/phasar/Utils/StableVector.h
index 12c1885..5b5b977 100644
--- a/include/phasar/Utils/StableVector.h
+++ b/include/phasar/Utils/StableVector.h
@@ -445,6 +445,7 @@ public:
       __asan_unpoison_memory_region(Blocks[0], InitialCapacity * sizeof(T));
       std::allocator_traits<allocator_type>::deallocate(Alloc, Blocks[0],
                                                         InitialCapacity);
+      Start = Pos = End = nullptr;
     }
 
     auto Cap = size_t(1) << (BlockIdx + InitialLogCapacity);
-- 
2.43.0


From 2336abf6fb01a9680e2870aa09586d5b07570895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 09/66] fix: make Table::column() and the output of table cells
 compile

---
 include/phasar/Utils/Table.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/phasar/Utils/Table.h b/include/phasar/Utils/Table.h
index 24ac50a..1d6df8b 100644
--- a/include/phasar/Utils/Table.h
+++ b/include/phasar/Utils/Table.h
@@ -45,7 +45,8 @@ public:
 
     friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS,
                                          const Cell &Cell) {
-      return OS << "Cell: " << Cell.r << ", " << Cell.c << ", " << Cell.v;
+      return OS << "Cell: " << Cell.Row << ", " << Cell.Column << ", "
+                << Cell.Value;
     }
     friend bool operator<(const Cell &Lhs, const Cell &Rhs) noexcept {
       return std::tie(Lhs.Row, Lhs.Column, Lhs.Value) <
@@ -124,8 +125,8 @@ public:
     // Returns a view of all mappings that have the given column key.
     std::unordered_map<R, V> Column;
     for (const auto &Row : Tab) {
-      if (Row.second.count(ColumnKey)) {
-        Column[Row.first] = Row.second[ColumnKey];
+      if (auto It = Row.second.find(ColumnKey); It != Row.second.end()) {
+        Column[Row.first] = It->second;
       }
     }
     return Column;
-- 
2.43.0


From ed3b5f8cdade366e4a3134b22ccfa347d7542b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 10/66] fix: make MaybeUniquePtr move-constructible

---
 include/phasar/Utils/MaybeUniquePtr.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/phasar/Utils/MaybeUniquePtr.h b/include/phasar/Utils/MaybeUniquePtr.h
index fe086fc..8617858 100644
--- a/include/phasar/Utils/MaybeUniquePtr.h
+++ b/include/phasar/Utils/MaybeUniquePtr.h
@@ -78,9 +78,7 @@ public:
   constexpr MaybeUniquePtr(std::unique_ptr<TT> &&Owner) noexcept
       : MaybeUniquePtr(Owner.release(), true) {}
 
-  constexpr MaybeUniquePtr(MaybeUniquePtr &&Other) noexcept
-      : detail::MaybeUniquePtrBase<T, RequireAlignment>(
-            std::exchange(Other.Data, {})) {}
+  constexpr MaybeUniquePtr(MaybeUniquePtr &&Other) noexcept { swap(Other); }
 
   constexpr void swap(MaybeUniquePtr &Other) noexcept {
     std::swap(Data, Other.Data);
-- 
2.43.0


From 1cf593f0ea85d4f8b4fb4c25accac2b1964b63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:06 +0000
Subject: [PATCH 11/66] fix: make the ordering of CallStringCTX compile

---
 include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
index 2e835c6..098c4ff 100644
--- a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
+++ b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
@@ -65,7 +65,7 @@ public:
 
   friend bool operator<(const CallStringCTX<N, K> &Lhs,
                         const CallStringCTX<N, K> &Rhs) {
-    return Lhs.cs < Rhs.cs;
+    return Lhs.CallString < Rhs.CallString;
   }
 
   llvm::raw_ostream &print(llvm::raw_ostream &OS) const {
-- 
2.43.0


From 4fa5d40ba0e8c17189da54a7488d5e007bee30fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:06 +0000
Subject: [PATCH 12/66] fix: separate all elements of a printed CallStringCTX,
 also repeated ones

---
 include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
index 098c4ff..ba12343 100644
--- a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
+++ b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
@@ -70,11 +70,13 @@ public:
 
   llvm::raw_ostream &print(llvm::raw_ostream &OS) const {
     OS << "Call string: [ ";
-    for (auto C : CallString) {
-      OS << NToString(C);
-      if (C != CallString.back()) {
+    bool First = true;
+    for (const auto &C : CallString) {
+      if (!First) {
         OS << " * ";
       }
+      First = false;
+      OS << NToString(C);
     }
     return OS << " ]";
   }
-- 
2.43.0


From 3f8080147dcefc28fe942eadb07c8297d898ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:06 +0000
Subject: [PATCH 13/66] fix: keep call strings with the limit 0 empty

---
 include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
index ba12343..5934823 100644
--- a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
+++ b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
@@ -30,6 +30,9 @@ public:
   }
 
   void push_back(N Stmt) { // NOLINT
+    if (KLimit == 0) {
+      return;
+    }
     if (CallString.size() > KLimit - 1) {
       CallString.pop_front();
     }
-- 
2.43.0


From 515653e98dfc772f99205b637baa83f2e5f6915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 14/66] fix: find the arguments of functions with a dot in
 their name by id

---
 lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
index d4632d4..1522d91 100644
--- a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
+++ b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
@@ -280,7 +280,7 @@ const llvm::Value *psr::fromMetaDataId(const LLVMProjectIRDB &IRDB,
     return std::nullopt;
   };
 
-  if (auto Dot = Id.find('.'); Dot != llvm::StringRef::npos) {
+  if (auto Dot = Id.rfind('.'); Dot != llvm::StringRef::npos) {
     auto FName = Id.slice(0, Dot);
 
     auto ArgNr = ParseInt(Id.drop_front(Dot + 1));
-- 
2.43.0


From e3689c454c727f01ea14da29685e2b60ca81ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 15/66] fix: reject metadata ids with trailing characters

---
 lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
index 1522d91..fc3ff20 100644
--- a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
+++ b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
@@ -270,9 +270,12 @@ const llvm::Value *psr::fromMetaDataId(const LLVMProjectIRDB &IRDB,
     unsigned Num;
     auto [Ptr, EC] = std::from_chars(Str.begin(), Str.end(), Num);
 
-    if (EC == std::errc{}) {
+    if (EC == std::errc{} && Ptr == Str.end()) {
       return Num;
     }
+    if (EC == std::errc{}) {
+      EC = std::errc::invalid_argument;
+    }
 
     PHASAR_LOG_LEVEL(WARNING,
                      "Invalid metadata id '"
-- 
2.43.0


From bb246ebf5714129795833f4b24a0ea88ea898605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 16/66] fix: recognize branch targets that start with ignored
 debug intrinsics

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 3eaf0f4..834a0bd 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -24,6 +24,16 @@
 
 namespace psr {
 
+/// The first instruction of BB in the CFG
+static const llvm::Instruction *getFirstInst(const llvm::BasicBlock *BB,
+                                             bool IgnoreDbgInstructions) {
+  const auto *Inst = &BB->front();
+  if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(Inst)) {
+    Inst = Inst->getNextNonDebugInstruction(false /*Only debug instructions*/);
+  }
+  return Inst;
+}
+
 template <typename Derived>
 auto detail::LLVMBasedCFGImpl<Derived>::getFunctionOfImpl(
     n_t Inst) const noexcept -> f_t {
@@ -203,10 +213,8 @@ bool detail::LLVMBasedCFGImpl<Derived>::isFallThroughSuccessorImpl(
     n_t Inst, n_t Succ) const noexcept {
   // assert(false && "FallThrough not valid in LLVM IR");
   if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Inst)) {
-    if (B->isConditional()) {
-      return &B->getSuccessor(1)->front() == Succ;
-    }
-    return &B->getSuccessor(0)->front() == Succ;
+    const auto *BB = B->getSuccessor(B->isConditional() ? 1 : 0);
+    return getFirstInst(BB, IgnoreDbgInstructions) == Succ;
   }
   return false;
 }
@@ -216,7 +224,7 @@ bool detail::LLVMBasedCFGImpl<Derived>::isBranchTargetImpl(
     n_t Inst, n_t Succ) const noexcept {
   if (Inst->isTerminator()) {
     for (const auto *BB : llvm::successors(Inst->getParent())) {
-      if (&BB->front() == Succ) {
+      if (getFirstInst(BB, IgnoreDbgInstructions) == Succ) {
         return true;
       }
     }
-- 
2.43.0


From 7e92715dbe2dc8b7bf39894a34365366ab4ac669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 17/66] fix: have a single start point if debug intrinsics are
 not ignored

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 834a0bd..fa13f85 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -180,7 +180,8 @@ bool detail::LLVMBasedCFGImpl<Derived>::isStartPointImpl(
   if (Inst == FirstInst) {
     return true;
   }
-  return llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
+  return IgnoreDbgInstructions &&
+         llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
          Inst == FirstInst->getNextNonDebugInstruction(false);
 }
 
-- 
2.43.0


From dec7efd9a844476cdb94fd7b28d0c9fa85a239fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 18/66] fix: predecessors of the return of a backward CFG

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 5e042a4..a52e2d2 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -39,10 +39,8 @@ auto LLVMBasedBackwardCFG::getFunctionOfImpl(n_t Inst) const noexcept -> f_t {
 
 auto LLVMBasedBackwardCFG::getPredsOfImpl(n_t Inst) const
     -> llvm::SmallVector<n_t, 2> {
-  if (BackwardRetToFunction.count(Inst)) {
-    return this
-        ->detail::LLVMBasedCFGImpl<LLVMBasedBackwardCFG>::getStartPointsOf(
-            this->base_t::getFunctionOfImpl(Inst));
+  if (const auto *Fun = BackwardRetToFunction.lookup(Inst)) {
+    return this->base_t::getStartPointsOfImpl(Fun);
   }
   return this->base_t::getSuccsOfImpl(Inst);
 }
-- 
2.43.0


From 1124cb8189323a1c2d480f7d9ad94c1b81b73883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 19/66] fix: direction of the edges of a backward CFG, and skip
 all ignored debug intrinsics

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index a52e2d2..8233c43 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -12,6 +12,7 @@
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 
 namespace psr {
 
@@ -69,19 +70,14 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
   for (const auto &I : llvm::instructions(Fun)) {
     if (IgnoreDbgInstructions) {
       // Check for call to intrinsic debug function
-      if (const auto *DbgCallInst = llvm::dyn_cast<llvm::CallInst>(&I)) {
-        if (DbgCallInst->getCalledFunction() &&
-            DbgCallInst->getCalledFunction()->isIntrinsic() &&
-            (DbgCallInst->getCalledFunction()->getName() ==
-             "llvm.dbg.declare")) {
-          continue;
-        }
+      if (llvm::isa<llvm::DbgInfoIntrinsic>(&I)) {
+        continue;
       }
     }
 
     auto Successors = getSuccsOf(&I);
     for (const auto *Successor : Successors) {
-      Edges.emplace_back(Successor, &I);
+      Edges.emplace_back(&I, Successor);
     }
   }
 
-- 
2.43.0


From 11adfd02a42b15718cb7f58d5b22385b45a005a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 20/66] fix: branch targets of a backward CFG for all
 terminators and with debug intrinsics

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 8233c43..dfd3a0e 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -112,14 +112,7 @@ bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
 }
 bool LLVMBasedBackwardCFG ::isBranchTargetImpl(n_t Inst,
                                                n_t Succ) const noexcept {
-  if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Succ)) {
-    for (const auto *BB : B->successors()) {
-      if (Inst == &(BB->front())) {
-        return true;
-      }
-    }
-  }
-  return false;
+  return this->base_t::isBranchTargetImpl(Succ, Inst);
 }
 
 } // namespace psr
-- 
2.43.0


From 7be8cf139df24b1b45ebabbf13391961add5b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:48 +0000
Subject: [PATCH 21/66] fix: declarations have no exit points in a backward CFG

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index dfd3a0e..534224c 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -91,9 +91,10 @@ auto LLVMBasedBackwardCFG ::getStartPointsOfImpl(f_t Fun) const
 
 auto LLVMBasedBackwardCFG ::getExitPointsOfImpl(f_t Fun) const
     -> llvm::SmallVector<n_t, 2> {
-  return BackwardRets.empty()
-             ? this->base_t::getStartPointsOfImpl(Fun)
-             : llvm::SmallVector<n_t, 2>{BackwardRets.lookup(Fun)};
+  if (BackwardRets.empty() || !Fun || Fun->isDeclaration()) {
+    return this->base_t::getStartPointsOfImpl(Fun);
+  }
+  return {BackwardRets.lookup(Fun)};
 }
 
 bool LLVMBasedBackwardCFG ::isExitInstImpl(n_t Inst) const noexcept {
-- 
2.43.0


From d93d40bde439a2e5b6e57f30e6fc1831bc51ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 22/66] fix: classify special member functions by their mangled
 name, and do not hang on names that start with a code

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 36 +++++++++++----------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index fa13f85..d00949e 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -241,6 +241,10 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
     return SpecialMemberFunctionType::None;
   }
   llvm::StringRef FunctionName = Fun->getName();
+  if (!FunctionName.startswith("_Z")) {
+    // Not a mangled C++ name
+    return SpecialMemberFunctionType::None;
+  }
   /// TODO: this looks terrible and needs fix
   static constexpr std::pair<llvm::StringLiteral, SpecialMemberFunctionType>
       Codes[] = {{"C1", SpecialMemberFunctionType::Constructor},
@@ -255,14 +259,13 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
   std::size_t Blacklist = 0;
   const auto *It = std::begin(Codes);
   while (It != std::end(Codes)) {
-    if (std::size_t Index = FunctionName.find(It->first, Blacklist)) {
-      if (Index != llvm::StringRef::npos) {
-        Found.emplace_back(Index, It->second);
-        Blacklist = Index + 1;
-      } else {
-        ++It;
-        Blacklist = 0;
-      }
+    std::size_t Index = FunctionName.find(It->first, Blacklist);
+    if (Index != llvm::StringRef::npos) {
+      Found.emplace_back(Index, It->second);
+      Blacklist = Index + 1;
+    } else {
+      ++It;
+      Blacklist = 0;
     }
   }
   if (Found.empty()) {
@@ -272,19 +275,18 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
   // test if codes are in function name or type information
   bool NoName = true;
   for (auto Index : Found) {
-    for (const auto *C = FunctionName.begin();
-         C < FunctionName.begin() + Index.first; ++C) {
-      if (isdigit(*C)) {
-        short I = 0;
-        while (isdigit(*(C + I))) {
-          ++I;
+    for (std::size_t C = 0; C < Index.first; ++C) {
+      if (isdigit(FunctionName[C])) {
+        // Skip the whole name
+        std::size_t Len = 0;
+        for (; C < Index.first && isdigit(FunctionName[C]); ++C) {
+          Len = 10 * Len + (FunctionName[C] - '0');
         }
-        std::string ST(C, C + I);
-        if (Index.first <= std::distance(FunctionName.begin(), C) + stoul(ST)) {
+        if (Index.first < C + Len) {
           NoName = false;
           break;
         }
-        C = C + *C;
+        C += Len - 1;
       }
     }
     if (NoName) {
-- 
2.43.0


From 28cc48447071daa0f0d4f53b772680176940d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 23/66] fix: null entries of deserialized vtables are not
 followed by a second null entry

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index be0f02c..dcb5a37 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -286,6 +286,7 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     for (const auto &FuncName : Curr) {
       if (FuncName == LLVMVFTable::NullFunName) {
         CurrVTable.push_back(nullptr);
+        continue;
       }
       CurrVTable.push_back(IRDB->getFunction(FuncName));
     }
-- 
2.43.0


From 2a4c5f747e3230081f642c2b323be8ba4f80ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 24/66] fix: the type hierarchy read from JSON finds types by
 their unique name

---
 .../TypeHierarchy/DIBasedTypeHierarchy.cpp        | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index dcb5a37..a47a97c 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -243,17 +243,6 @@ stringToDICompositeType(const llvm::DebugInfoFinder &DIF,
   llvm::report_fatal_error("DIType doesn't exist: " + DITypeName);
 }
 
-static const llvm::DIType *stringToDIType(const llvm::DebugInfoFinder &DIF,
-                                          llvm::StringRef DITypeName) {
-  for (const auto *Type : DIF.types()) {
-    if (Type->getName() == DITypeName) {
-      return Type;
-    }
-  }
-
-  llvm::report_fatal_error("DIType doesn't exist " + DITypeName);
-}
-
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     const LLVMProjectIRDB *IRDB, const DIBasedTypeHierarchyData &SerializedData)
     : TransitiveDerivedIndex(SerializedData.TransitiveDerivedIndex) {
@@ -276,7 +265,7 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
 
   Hierarchy.reserve(SerializedData.Hierarchy.size());
   for (const auto &Curr : SerializedData.Hierarchy) {
-    Hierarchy.push_back(stringToDIType(DIF, Curr));
+    Hierarchy.push_back(stringToDICompositeType(DIF, Curr));
   }
 
   for (const auto &Curr : SerializedData.VTables) {
@@ -361,7 +350,7 @@ DIBasedTypeHierarchyData DIBasedTypeHierarchy::getTypeHierarchyData() const {
 
   Data.Hierarchy.reserve(Hierarchy.size());
   for (const auto &Curr : Hierarchy) {
-    Data.Hierarchy.push_back(Curr->getName().str());
+    Data.Hierarchy.push_back(getTypeName(Curr).str());
   }
 
   for (const auto &Curr : VTables) {
-- 
2.43.0


From 86048ee100f258c184852330de7a487f6fb64942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:52 +0000
Subject: [PATCH 25/66] fix: unnamed types are allowed in the debug-info based
 type hierarchy

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index a47a97c..28240f4 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -198,9 +198,10 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
         }
         if (TypeToVertex.try_emplace(Composite, VertexTypes.size()).second) {
           VertexTypes.push_back(Composite);
-          NameToType.try_emplace(getCompositeTypeName(Composite), Composite);
-
-          assert(!getCompositeTypeName(Composite).empty());
+          // unnamed types (e.g. anonymous unions in C) cannot be found by name
+          if (auto Name = getCompositeTypeName(Composite); !Name.empty()) {
+            NameToType.try_emplace(Name, Composite);
+          }
         }
       }
     }
-- 
2.43.0


From 6c51c2042786996f22252316b23e6d00b236c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 26/66] fix: RTA finds all objects with a dynamic type, also in
 globals, arrays, and other objects

---
 .../ControlFlow/Resolver/Resolver.h           |  8 ++
 .../ControlFlow/Resolver/RTAResolver.cpp      | 96 ++++++++++++++-----
 .../ControlFlow/Resolver/Resolver.cpp         | 27 ++++++
 3 files changed, 105 insertions(+), 26 deletions(-)

diff --git a/include/phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h b/include/phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h
index 1565438..af151f5 100644
--- a/include/phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h
+++ b/include/phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h
@@ -20,6 +20,7 @@
 #include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
 
 #include "llvm/ADT/DenseSet.h"
+#include "llvm/ADT/SmallVector.h"
 
 #include <memory>
 #include <optional>
@@ -29,6 +30,7 @@ namespace llvm {
 class Instruction;
 class CallBase;
 class Function;
+class GlobalVariable;
 class StructType;
 } // namespace llvm
 
@@ -52,6 +54,12 @@ getReceiverType(const llvm::CallBase *CallSite);
 [[nodiscard]] bool isVirtualCall(const llvm::Instruction *Inst,
                                  const LLVMVFTableProvider &VTP);
 
+/// The vtables that are referenced by the initializer of Glob, i.e. the vtables
+/// of the statically initialized objects within Glob. Empty, if Glob is a vtable
+/// itself.
+[[nodiscard]] llvm::SmallVector<const llvm::GlobalVariable *>
+getReferencedVTables(const llvm::GlobalVariable &Glob);
+
 class Resolver {
 protected:
   const LLVMProjectIRDB *IRDB;
diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
index 27ec5c5..04268c0 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
@@ -22,7 +22,9 @@
 #include "phasar/Utils/Logger.h"
 #include "phasar/Utils/Utilities.h"
 
-#include "llvm/ADT/StringSet.h"
+#include "llvm/ADT/DenseSet.h"
+#include "llvm/ADT/SmallVector.h"
+#include "llvm/Demangle/Demangle.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/DerivedTypes.h"
 #include "llvm/IR/Function.h"
@@ -94,7 +96,50 @@ auto RTAResolver::resolveVirtualCall(const llvm::CallBase *CallSite)
 
 std::string RTAResolver::str() const { return "RTA"; }
 
-/// More or less copied from GeneralStatisticsAnalysis
+/// Inserts all struct types of which an object of type Ty contains an object.
+/// Objects of base classes that are part of an object of a derived class do not
+/// count.
+static void
+insertContainedStructTypes(const llvm::Type *Ty, const LLVMTypeHierarchy &TH,
+                           llvm::DenseSet<const llvm::StructType *> &Into) {
+  while (const auto *ArrayTy = llvm::dyn_cast<llvm::ArrayType>(Ty)) {
+    Ty = ArrayTy->getElementType();
+  }
+  const auto *StructTy = llvm::dyn_cast<llvm::StructType>(Ty);
+  if (!StructTy || !Into.insert(StructTy).second) {
+    return;
+  }
+  llvm::SmallVector<const llvm::Type *> WorkList(
+      StructTy->element_begin(), StructTy->element_end());
+  while (!WorkList.empty()) {
+    const auto *ElementTy = WorkList.pop_back_val();
+    const auto *BaseTy = llvm::dyn_cast<llvm::StructType>(ElementTy);
+    if (BaseTy && TH.hasType(BaseTy) && TH.hasType(StructTy) &&
+        TH.isSubType(BaseTy, StructTy)) {
+      WorkList.append(BaseTy->element_begin(), BaseTy->element_end());
+    } else {
+      insertContainedStructTypes(ElementTy, TH, Into);
+    }
+  }
+}
+
+/// Inserts the struct types of all objects that are statically initialized with
+/// a pointer to their vtable.
+static void insertStaticallyInitializedStructTypes(
+    const llvm::GlobalVariable &Glob, const LLVMTypeHierarchy &TH,
+    llvm::DenseSet<const llvm::StructType *> &Into) {
+  for (const auto *VTable : getReferencedVTables(Glob)) {
+    auto ClearName = LLVMTypeHierarchy::removeVTablePrefix(
+        llvm::demangle(VTable->getName().str()));
+    for (auto Prefix :
+         {LLVMTypeHierarchy::StructPrefix, LLVMTypeHierarchy::ClassPrefix}) {
+      if (const auto *StructTy = TH.getType(Prefix.str() + ClearName)) {
+        Into.insert(StructTy);
+      }
+    }
+  }
+}
+
 void RTAResolver::resolveAllocatedStructTypes() {
   if (!AllocatedStructTypes.empty()) {
     return;
@@ -102,13 +147,16 @@ void RTAResolver::resolveAllocatedStructTypes() {
 
   llvm::DenseSet<const llvm::StructType *> AllocatedStructTypes;
 
+  for (const auto &Glob : IRDB->getModule()->globals()) {
+    insertContainedStructTypes(Glob.getValueType(), *TH, AllocatedStructTypes);
+    insertStaticallyInitializedStructTypes(Glob, *TH, AllocatedStructTypes);
+  }
+
   for (const auto *Fun : IRDB->getAllFunctions()) {
     for (const auto &Inst : llvm::instructions(Fun)) {
       if (const auto *Alloca = llvm::dyn_cast<llvm::AllocaInst>(&Inst)) {
-        if (const auto *StructTy =
-                llvm::dyn_cast<llvm::StructType>(Alloca->getAllocatedType())) {
-          AllocatedStructTypes.insert(StructTy);
-        }
+        insertContainedStructTypes(Alloca->getAllocatedType(), *TH,
+                                   AllocatedStructTypes);
       } else if (const auto *CallSite = llvm::dyn_cast<llvm::CallBase>(&Inst);
                  CallSite && CallSite->getCalledFunction()) {
         // check if an instance of a user-defined type is allocated on the
@@ -120,29 +168,25 @@ void RTAResolver::resolveAllocatedStructTypes() {
         /// TODO: Does this iteration over the users make sense?
         /// After LLVM 15 we will probably not be able to access the
         /// PointerElementType anyway...
-        for (const auto *User : Inst.users()) {
-          const auto *Cast = llvm::dyn_cast<llvm::BitCastInst>(User);
-          if (!Cast || Cast->getDestTy()->isOpaquePointerTy() ||
-              !Cast->getDestTy()
-                   ->getNonOpaquePointerElementType()
-                   ->isStructTy()) {
+        llvm::SmallVector<const llvm::User *> Users(Inst.users());
+        while (!Users.empty()) {
+          const auto *User = Users.pop_back_val();
+          if (const auto *GEP =
+                  llvm::dyn_cast<llvm::GetElementPtrInst>(User)) {
+            // Arrays may start after a cookie
+            if (GEP->getSourceElementType()->isIntegerTy(8)) {
+              Users.append(GEP->user_begin(), GEP->user_end());
+            }
             continue;
           }
-          // finally check for ctor call
-          for (const auto *User : Cast->users()) {
-            if (const auto *CTor = llvm::dyn_cast<llvm::CallBase>(User)) {
-              // potential call to the structures ctor
-              if (CTor->getCalledFunction() &&
-                  getNthFunctionArgument(CTor->getCalledFunction(), 0)
-                          ->getType() == Cast->getDestTy() &&
-                  !Cast->getDestTy()->isOpaquePointerTy()) {
-                if (const auto *StructTy = llvm::dyn_cast<llvm::StructType>(
-                        Cast->getDestTy()->getNonOpaquePointerElementType())) {
-                  AllocatedStructTypes.insert(StructTy);
-                }
-              }
-            }
+          const auto *Cast = llvm::dyn_cast<llvm::BitCastInst>(User);
+          if (!Cast || !Cast->getDestTy()->isPointerTy() ||
+              Cast->getDestTy()->isOpaquePointerTy()) {
+            continue;
           }
+          insertContainedStructTypes(
+              Cast->getDestTy()->getNonOpaquePointerElementType(), *TH,
+              AllocatedStructTypes);
         }
       }
     }
diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index e55edef..2891b3a 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -28,8 +28,10 @@
 #include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
 #include "phasar/Utils/Logger.h"
 
+#include "llvm/ADT/SmallPtrSet.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/DerivedTypes.h"
+#include "llvm/IR/GlobalVariable.h"
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instructions.h"
 #include "llvm/Support/Casting.h"
@@ -127,6 +129,31 @@ bool psr::isVirtualCall(const llvm::Instruction *Inst,
   return getVFTIndex(CallSite) >= 0;
 }
 
+llvm::SmallVector<const llvm::GlobalVariable *>
+psr::getReferencedVTables(const llvm::GlobalVariable &Glob) {
+  llvm::SmallVector<const llvm::GlobalVariable *> VTables;
+  if (!Glob.hasInitializer() || LLVMTypeHierarchy::isVTable(Glob.getName())) {
+    return VTables;
+  }
+  llvm::SmallVector<const llvm::Value *> WorkList = {Glob.getInitializer()};
+  llvm::SmallPtrSet<const llvm::Value *, 8> Visited;
+  while (!WorkList.empty()) {
+    const auto *Const = WorkList.pop_back_val();
+    if (!Visited.insert(Const).second) {
+      continue;
+    }
+    if (const auto *RefGlob = llvm::dyn_cast<llvm::GlobalVariable>(Const)) {
+      if (LLVMTypeHierarchy::isVTable(RefGlob->getName())) {
+        VTables.push_back(RefGlob);
+      }
+    } else if (llvm::isa<llvm::ConstantAggregate, llvm::ConstantExpr>(Const)) {
+      const auto *User = llvm::cast<llvm::User>(Const);
+      WorkList.append(User->value_op_begin(), User->value_op_end());
+    }
+  }
+  return VTables;
+}
+
 namespace psr {
 
 Resolver::Resolver(const LLVMProjectIRDB *IRDB, const LLVMVFTableProvider *VTP)
-- 
2.43.0


From 7943ded485b91a8d6e7e48e9c63da30aa598c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 27/66] fix: OTF finds the callees of calls on statically
 initialized objects

---
 .../ControlFlow/Resolver/OTFResolver.cpp      | 44 ++++++++++++-------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/OTFResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/OTFResolver.cpp
index fb2d8a8..b26fc87 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/OTFResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/OTFResolver.cpp
@@ -86,26 +86,36 @@ auto OTFResolver::resolveVirtualCall(const llvm::CallBase *CallSite)
 
   PHASAR_LOG_LEVEL(DEBUG, "Virtual function table entry is: " << VtableIndex);
 
+  auto handleVTable = [&](const llvm::GlobalVariable *VTable) {
+    if (!VTable->hasInitializer()) {
+      return;
+    }
+    if (const auto *PCS =
+            llvm::dyn_cast<llvm::ConstantStruct>(VTable->getInitializer())) {
+      auto VFs = LLVMVFTable::getVFVectorFromIRVTable(*PCS);
+      if (VtableIndex >= VFs.size()) {
+        return;
+      }
+      const auto *Callee = VFs[VtableIndex];
+      if (Callee == nullptr || !Callee->hasName() ||
+          Callee->getName() == LLVMTypeHierarchy::PureVirtualCallName ||
+          !isConsistentCall(CallSite, Callee)) {
+        return;
+      }
+      PossibleCallTargets.insert(Callee);
+    }
+  };
+
   auto PTS = PT.getAliasSet(CallSite->getCalledOperand(), CallSite);
   for (const auto *P : *PTS) {
     if (const auto *PGV = llvm::dyn_cast<llvm::GlobalVariable>(P)) {
-      if (PGV->hasName() &&
-          PGV->getName().startswith(LLVMTypeHierarchy::VTablePrefix) &&
-          PGV->hasInitializer()) {
-        if (const auto *PCS =
-                llvm::dyn_cast<llvm::ConstantStruct>(PGV->getInitializer())) {
-          auto VFs = LLVMVFTable::getVFVectorFromIRVTable(*PCS);
-          if (VtableIndex >= VFs.size()) {
-            continue;
-          }
-          const auto *Callee = VFs[VtableIndex];
-          if (Callee == nullptr || !Callee->hasName() ||
-              Callee->getName() == LLVMTypeHierarchy::PureVirtualCallName ||
-              !isConsistentCall(CallSite, Callee)) {
-            continue;
-          }
-          PossibleCallTargets.insert(Callee);
-        }
+      if (PGV->getName().startswith(LLVMTypeHierarchy::VTablePrefix)) {
+        handleVTable(PGV);
+      }
+      // The vtable pointers of statically initialized objects are not stored by
+      // any instruction
+      for (const auto *VTable : getReferencedVTables(*PGV)) {
+        handleVTable(VTable);
       }
     }
   }
-- 
2.43.0


From 7f5f8106800a4acde36e11a747e4e1f54a07b23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:20 +0000
Subject: [PATCH 28/66] fix: find overriders with covariant return types in the
 call graph

---
 lib/PhasarLLVM/Utils/LLVMShorthands.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
index 99f8095..24f8ce8 100644
--- a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
@@ -111,8 +111,12 @@ bool psr::matchesSignature(const llvm::Function *F,
   if (F == nullptr || FType == nullptr) {
     return false;
   }
-  if (F->arg_size() == FType->getNumParams() &&
-      F->getReturnType() == FType->getReturnType()) {
+  // Overriders of virtual functions may have a covariant return type
+  bool ReturnTypeMatch =
+      ExactMatch ? F->getReturnType() == FType->getReturnType()
+                 : isTypeMatchForFunctionArgument(F->getReturnType(),
+                                                  FType->getReturnType());
+  if (F->arg_size() == FType->getNumParams() && ReturnTypeMatch) {
     unsigned Idx = 0;
     for (const auto &Arg : F->args()) {
       bool TypeMissMatch =
-- 
2.43.0


From 67223fe861321434029c42cd1e7901fa8a3fe5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:20 +0000
Subject: [PATCH 29/66] fix: calls to function pointers in struct fields are no
 virtual calls

---
 lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index 2891b3a..63caff8 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -50,7 +50,9 @@ std::optional<unsigned> psr::getVFTIndex(const llvm::CallBase *CallSite) {
   }
   const auto *GEP =
       llvm::dyn_cast<llvm::GetElementPtrInst>(Load->getPointerOperand());
-  if (GEP == nullptr) {
+  // An access to a vtable has a single index; with more indices, we have an
+  // access to a field of a struct that holds a function pointer
+  if (GEP == nullptr || GEP->getNumIndices() != 1) {
     return std::nullopt;
   }
   if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(GEP->getOperand(1))) {
@@ -126,7 +128,7 @@ bool psr::isVirtualCall(const llvm::Instruction *Inst,
   if (!VTP.hasVFTable(RecType)) {
     return false;
   }
-  return getVFTIndex(CallSite) >= 0;
+  return getVFTIndex(CallSite).has_value();
 }
 
 llvm::SmallVector<const llvm::GlobalVariable *>
-- 
2.43.0


From 88d2d43f8113f8379e78035b5645f1f56b770c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:20 +0000
Subject: [PATCH 30/66] fix: resolve calls through arrays of function pointers
 that look like virtual calls

---
 lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index 63caff8..e0f656f 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -189,7 +189,13 @@ void Resolver::postCall(const llvm::Instruction *Inst) {}
 auto Resolver::resolveIndirectCall(const llvm::CallBase *CallSite)
     -> FunctionSetTy {
   if (VTP && isVirtualCall(CallSite, *VTP)) {
-    return resolveVirtualCall(CallSite);
+    auto Callees = resolveVirtualCall(CallSite);
+    const auto *VFT = VTP->getVFTableOrNull(getReceiverType(CallSite));
+    // If the receiver type has no vtable, this may be a call through an array of
+    // function pointers
+    if (!Callees.empty() || (VFT && !VFT->empty())) {
+      return Callees;
+    }
   }
   return resolveFunctionPointer(CallSite);
 }
-- 
2.43.0


From 26019dea38fc35c5a400f60fd9250dd6b4345fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 31/66] fix: skip invalid call-sites when deserializing a call
 graph

---
 include/phasar/ControlFlow/CallGraph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/ControlFlow/CallGraph.h b/include/phasar/ControlFlow/CallGraph.h
index d73a1b5..4e1eb2a 100644
--- a/include/phasar/ControlFlow/CallGraph.h
+++ b/include/phasar/ControlFlow/CallGraph.h
@@ -297,6 +297,7 @@ CallGraph<N, F>::deserialize(const CallGraphData &PrecomputedCG,
       if (!CS) {
         PHASAR_LOG_LEVEL_CAT(WARNING, "CallGraph",
                              "Invalid Call-Instruction Id: " << JId);
+        continue;
       }
 
       CGBuilder.addCallEdge(CS, Fun);
-- 
2.43.0


From 66a46561d23edd05d50109269e326be9f6dc0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 32/66] fix: pass the alias information to the call-graph
 resolver

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index 74e8a97..55a2f59 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -283,7 +283,7 @@ auto psr::buildLLVMBasedCallGraph(
     PT = PTOwn.asRef();
   }
 
-  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH);
+  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH, PT);
   return buildLLVMBasedCallGraph(IRDB, *Res, EntryPoints, S);
 }
 
-- 
2.43.0


From d6a9303014a28fe6618ba1bbe76a209cc595aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:43 +0000
Subject: [PATCH 33/66] fix: compare all pointers of a function when computing
 its alias sets

---
 .../phasar/PhasarLLVM/Pointer/LLVMAliasSet.h  |  4 +-
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp       | 80 ++++---------------
 2 files changed, 17 insertions(+), 67 deletions(-)

diff --git a/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h b/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h
index 55c150d..7559449 100644
--- a/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h
+++ b/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h
@@ -21,6 +21,7 @@
 
 #include "llvm/ADT/DenseMap.h"
 #include "llvm/ADT/DenseSet.h"
+#include "llvm/ADT/SetVector.h"
 
 #include "nlohmann/json.hpp"
 
@@ -149,7 +150,8 @@ private:
 
   /// Utility function used by computeFunctionsAliasSet(...)
   void addPointer(llvm::AAResults &AA, const llvm::DataLayout &DL,
-                  const llvm::Value *V, std::vector<const llvm::Value *> &Reps);
+                  const llvm::Value *V,
+                  llvm::SetVector<const llvm::Value *> &Reps);
 
   [[nodiscard]] static BoxedPtr<AliasSetTy> getEmptyAliasSet();
 
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 40b95fe..c3392db 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -343,70 +343,20 @@ static bool mayAlias(llvm::AAResults &AA, const llvm::DataLayout &DL,
 
 void LLVMAliasSet::addPointer(llvm::AAResults &AA, const llvm::DataLayout &DL,
                               const llvm::Value *V,
-                              std::vector<const llvm::Value *> &Reps) {
-  llvm::SmallVector<unsigned> ToMerge;
-
-  for (unsigned It = 0, End = Reps.size(); It < End; ++It) {
-    if (mayAlias(AA, DL, V, Reps[It])) {
-      ToMerge.push_back(It);
-    }
+                              llvm::SetVector<const llvm::Value *> &Reps) {
+  addSingletonAliasSet(V);
+  if (!Reps.insert(V)) {
+    return;
   }
 
   // If we find several alias sets that may alias V, we must merge them.
-  // However, we cannot simply remove all respective representants (except for
-  // one), because for interprocedural flows, LLVM assumes all possible
-  // aliases and i8* is treated as void* making every pointer-type a matching
-  // type.
-  // This destroys the transitivity of the mayAlias relation partially. We can
-  // still remove a representant, if we have another rep of the same type
-  // within the same alias set.
-
-  if (ToMerge.empty()) {
-    Reps.push_back(V);
-    addSingletonAliasSet(V);
-  } else if (ToMerge.size() == 1) {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    assert(PTS && "Only added to Reps together with a "
-                  "\"addSingletonAliasSet\" call");
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    if (V->getType() != Reps[ToMerge[0]]->getType()) {
-      Reps.push_back(V);
-    }
-
-  } else {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    llvm::SmallPtrSet<const llvm::Type *, 6> OccurringTypes{
-        Reps[ToMerge[0]]->getType()};
-    llvm::SmallVector<unsigned> ToRemove;
-
-    for (auto Idx : llvm::makeArrayRef(ToMerge).slice(1)) {
-      mergeAliasSets(PTS, AliasSets[Reps[Idx]]);
-      if (auto [Unused, Inserted] = OccurringTypes.insert(Reps[Idx]->getType());
-          !Inserted) {
-        ToRemove.push_back(Idx);
-      }
-    }
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    Reps.erase(remove_by_index(Reps, ToRemove.begin(), ToRemove.end()),
-               Reps.end());
-
-    if (auto [Unused, Inserted] = OccurringTypes.insert(V->getType());
-        Inserted) {
-      Reps.push_back(V);
+  // The mayAlias relation is not transitive, so we cannot represent an alias set
+  // by some of its elements here: another pointer may alias with an element of
+  // the set without aliasing with any of the representants.
+  for (const auto *Rep : Reps) {
+    if (AliasSets[Rep].get() != AliasSets[V].get() &&
+        mayAlias(AA, DL, V, Rep)) {
+      mergeAliasSets(V, Rep);
     }
   }
 }
@@ -460,11 +410,12 @@ void LLVMAliasSet::computeFunctionsAliasSet(llvm::Function *F) {
   const llvm::DataLayout &DL = F->getParent()->getDataLayout();
 
   auto addPointer = [this, &AA, &DL](const llvm::Value *V, // NOLINT
-                                     std::vector<const llvm::Value *> &Reps) {
+                                     llvm::SetVector<const llvm::Value *>
+                                         &Reps) {
     return this->addPointer(AA, DL, V, Reps);
   };
 
-  std::vector<const llvm::Value *> Pointers;
+  llvm::SetVector<const llvm::Value *> Pointers;
   llvm::DenseSet<const llvm::Value *> UsedGlobals;
 
   for (auto &Inst : llvm::instructions(F)) {
@@ -539,9 +490,6 @@ void LLVMAliasSet::computeFunctionsAliasSet(llvm::Function *F) {
     }
   }
 
-  auto NumGlobals = UsedGlobals.size();
-
-  Pointers.reserve(Pointers.size() + NumGlobals);
   for (const auto *Glob : UsedGlobals) {
     addPointer(Glob, Pointers);
   }
-- 
2.43.0


From df6b62f91d3884c0937019d248b5362bad753c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:53 +0000
Subject: [PATCH 34/66] fix: construct the type hierarchy of an ICFG on the fly
 if there is none

---
 lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index e0f656f..30907ba 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -232,13 +232,10 @@ std::unique_ptr<Resolver> Resolver::create(CallGraphAnalysisType Ty,
   case CallGraphAnalysisType::NORESOLVE:
     return std::make_unique<NOResolver>(IRDB, VTP);
   case CallGraphAnalysisType::CHA:
-    assert(TH != nullptr);
     return std::make_unique<CHAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::RTA:
-    assert(TH != nullptr);
     return std::make_unique<RTAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::DTA:
-    assert(TH != nullptr);
     return std::make_unique<DTAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::VTA:
     llvm::report_fatal_error(
-- 
2.43.0


From f54310cf7826a775ccbe791991b6956af9ad6469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:53 +0000
Subject: [PATCH 35/66] fix: write an empty call graph as an empty JSON object

---
 lib/ControlFlow/CallGraphData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ControlFlow/CallGraphData.cpp b/lib/ControlFlow/CallGraphData.cpp
index 5b4e254..58f019e 100644
--- a/lib/ControlFlow/CallGraphData.cpp
+++ b/lib/ControlFlow/CallGraphData.cpp
@@ -33,7 +33,7 @@ static CallGraphData getDataFromJson(const nlohmann::json &Json) {
 }
 
 void CallGraphData::printAsJson(llvm::raw_ostream &OS) {
-  nlohmann::json JSON;
+  nlohmann::json JSON = nlohmann::json::object();
 
   for (const auto &[Fun, Callers] : FToFunctionVertexTy) {
     auto &JCallers = JSON[Fun];
-- 
2.43.0


From d0dfa1f306bb3c0e3074fb5afa72e57b77e1babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:43 +0000
Subject: [PATCH 36/66] fix: copies of a call graph have vertices of their own

---
 include/phasar/ControlFlow/CallGraph.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/phasar/ControlFlow/CallGraph.h b/include/phasar/ControlFlow/CallGraph.h
index 4e1eb2a..8335e11 100644
--- a/include/phasar/ControlFlow/CallGraph.h
+++ b/include/phasar/ControlFlow/CallGraph.h
@@ -55,6 +55,28 @@ public:
   /// Creates a new, empty call-graph
   CallGraph() noexcept = default;
 
+  /// The copy has vertices of its own
+  CallGraph(const CallGraph &Other) {
+    CalleesAt.reserve(Other.CalleesAt.size());
+    for (const auto &[Inst, Callees] : Other.CalleesAt) {
+      CalleesAt.try_emplace(Inst, &InstVertexOwner.emplace_back(*Callees));
+    }
+    CallersOf.reserve(Other.CallersOf.size());
+    FunVertexOwner.reserve(Other.FunVertexOwner.capacity());
+    for (const auto &[Fun, Callers] : Other.CallersOf) {
+      CallersOf.try_emplace(Fun, &FunVertexOwner.emplace_back(*Callers));
+    }
+  }
+  CallGraph(CallGraph &&) noexcept = default;
+  CallGraph &operator=(CallGraph Other) noexcept {
+    InstVertexOwner = std::move(Other.InstVertexOwner);
+    FunVertexOwner = std::move(Other.FunVertexOwner);
+    CalleesAt = std::move(Other.CalleesAt);
+    CallersOf = std::move(Other.CallersOf);
+    return *this;
+  }
+  ~CallGraph() = default;
+
   /// Deserializes a previously computed call-graph
   template <typename FunctionGetter, typename InstructionGetter>
   [[nodiscard]] static CallGraph
-- 
2.43.0


From b472a6eb27c1dcf4f624f71b405e8bd8d423588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:49 +0000
Subject: [PATCH 37/66] fix: LLVMAliasSet::mergeWith joins all sets that a
 merged set connects

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 29 ++++++++-----------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index c3392db..dcd5220 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -604,29 +604,18 @@ void LLVMAliasSet::mergeWith(const LLVMAliasSet &OtherPTI) {
   AnalyzedFunctions.insert(OtherPTI.AnalyzedFunctions.begin(),
                            OtherPTI.AnalyzedFunctions.end());
   // merge points-to sets
-  for (const auto &[KeyPtr, Set] : OtherPTI.AliasSets) {
-    bool FoundElemPtr = false;
+  for (const auto *Set : OtherPTI.Owner.getAllAliasSets()) {
+    // All elements of a set of other alias each other. If they already belong to
+    // different sets of this, those sets become one.
+    const llvm::Value *First = nullptr;
     for (const auto *ElemPtr : *Set) {
-      // check if a pointer of other is already present in this
-
-      if (auto Search = AliasSets.find(ElemPtr); Search != AliasSets.end()) {
-        // if so, copy its elements
-        FoundElemPtr = true;
-        Search->second->insert(Set->begin(), Set->end());
-        // and reindex its elements
-        for (const auto *ElemPtr : *Set) {
-          AliasSets.insert({ElemPtr, Search->second});
-        }
-        break;
+      addSingletonAliasSet(ElemPtr);
+      if (First) {
+        mergeAliasSets(First, ElemPtr);
+      } else {
+        First = ElemPtr;
       }
     }
-    // if none of the pointers of a set of other is known in this, we need to
-    // perform a copy
-    if (!FoundElemPtr) {
-      auto PTS = Owner.acquire();
-      *PTS = *Set;
-      AliasSets.try_emplace(KeyPtr, PTS);
-    }
   }
 }
 
-- 
2.43.0


From bf93fe1df5655cbe51a668c3b897f46cac6f6396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:00 +0000
Subject: [PATCH 38/66] fix: serialized alias sets keep functions

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 34 ++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index dcd5220..0714440 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -51,6 +51,28 @@
 
 namespace psr {
 
+/// The id under which a value is serialized. Functions do not have a metadata-id,
+/// so use their name, marked with an '@'.
+static std::string getSerializationId(const llvm::Value *V) {
+  if (const auto *F = llvm::dyn_cast<llvm::Function>(V)) {
+    return "@" + F->getName().str();
+  }
+  return getMetaDataID(V);
+}
+
+static const llvm::Value *fromSerializationId(const LLVMProjectIRDB &IRDB,
+                                              llvm::StringRef Id) {
+  if (Id.consume_front("@")) {
+    return IRDB.getFunction(Id);
+  }
+  return fromMetaDataId(IRDB, Id);
+}
+
+/// A function that only aliases itself does not need to be serialized.
+static bool isSingleFunction(const LLVMAliasInfo::AliasSetTy &Set) {
+  return Set.size() == 1 && llvm::isa<llvm::Function>(*Set.begin());
+}
+
 template class BoxedPtr<LLVMAliasInfo::AliasSetTy>;
 template class BoxedConstPtr<LLVMAliasInfo::AliasSetTy>;
 template class AliasSetOwner<LLVMAliasInfo::AliasSetTy>;
@@ -118,7 +140,7 @@ LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB,
     auto PTS = Owner.acquire();
     for (const auto &Alias : PtsJson) {
       const auto AliasStr = Alias.get<std::string>();
-      const auto *Inst = fromMetaDataId(*IRDB, AliasStr);
+      const auto *Inst = fromSerializationId(*IRDB, AliasStr);
       if (!Inst) {
         PHASAR_LOG_LEVEL(WARNING, "Invalid Value-Id: " << AliasStr);
         continue;
@@ -640,9 +662,12 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
   auto &Sets = J["AliasSets"];
 
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
+    if (isSingleFunction(*PTS)) {
+      continue;
+    }
     auto PtsJson = nlohmann::json::array();
     for (const auto *Alias : *PTS) {
-      auto Id = getMetaDataID(Alias);
+      auto Id = getSerializationId(Alias);
       if (Id != "-1") {
         PtsJson.push_back(std::move(Id));
       }
@@ -665,10 +690,13 @@ LLVMAliasSetData LLVMAliasSet::getLLVMAliasSetData() const {
 
   /// Serialize the AliasSets
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
+    if (isSingleFunction(*PTS)) {
+      continue;
+    }
 
     std::vector<std::string> PtsJson{};
     for (const auto *Alias : *PTS) {
-      auto Id = getMetaDataID(Alias);
+      auto Id = getSerializationId(Alias);
       if (Id != "-1") {
         PtsJson.push_back(std::move(Id));
       }
-- 
2.43.0


From d4cbedb640a2d21e521a7ec70bafdb581ecc4fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:52 +0000
Subject: [PATCH 39/66] fix: serialized alias sets can be read back when
 nothing was analyzed

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp     | 2 ++
 lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 0714440..caa9b39 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -660,6 +660,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
 
   /// Serialize the AliasSets
   auto &Sets = J["AliasSets"];
+  Sets = nlohmann::json::array();
 
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
     if (isSingleFunction(*PTS)) {
@@ -679,6 +680,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
 
   /// Serialize the AnalyzedFunctions
   auto &Fns = J["AnalyzedFunctions"];
+  Fns = nlohmann::json::array();
   for (const auto *F : AnalyzedFunctions) {
     Fns.push_back(F->getName());
   }
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
index 4f807c5..8252504 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
@@ -30,6 +30,8 @@ static LLVMAliasSetData getDataFromJson(const nlohmann::json &Json) {
 
 void LLVMAliasSetData::printAsJson(llvm::raw_ostream &OS) {
   nlohmann::json JSON;
+  JSON["AliasSets"] = nlohmann::json::array();
+  JSON["AnalyzedFunctions"] = nlohmann::json::array();
 
   for (const auto &Curr : AliasSets) {
     JSON["AliasSets"].push_back(Curr);
-- 
2.43.0


From 662711c5b13c727814475a01d9563ca74dae9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:02 +0000
Subject: [PATCH 40/66] fix: IDELinearConstantAnalysis does not compute
 wrapping or unsigned operations as signed 64 bit ones

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 1836e07..11fb914 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -93,11 +93,14 @@ static_assert(is_llvm_hashable_v<GenConstant>);
  *
  * @brief Computes the result of a binary operation.
  * @param op operator
+ * @param BitWidth the width of the operands and the result
  * @param lop left operand
  * @param rop right operand
- * @return Result of binary operation
+ * @return Result of binary operation, BOTTOM if it does not fit into BitWidth
+ * bits
  */
-static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
+static l_t executeBinOperation(unsigned Op, unsigned BitWidth, l_t LVal,
+                               l_t RVal) {
   auto *LopPtr = std::get_if<int64_t>(&LVal);
   auto *RopPtr = std::get_if<int64_t>(&RVal);
 
@@ -108,6 +111,13 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
   auto Lop = *LopPtr;
   auto Rop = *RopPtr;
 
+  auto Fit = [BitWidth](int64_t Res) -> l_t {
+    if (BitWidth < 64 && !llvm::isIntN(BitWidth, Res)) {
+      return Bottom{};
+    }
+    return Res;
+  };
+
   // default initialize with BOTTOM (all information)
   int64_t Res;
   switch (Op) {
@@ -115,21 +125,25 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (llvm::AddOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return Fit(Res);
 
   case llvm::Instruction::Sub:
     if (llvm::SubOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return Fit(Res);
 
   case llvm::Instruction::Mul:
     if (llvm::MulOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return Fit(Res);
 
   case llvm::Instruction::UDiv:
+    if (Lop < 0 || Rop < 0) { // Not what the signed division computes
+      return Bottom{};
+    }
+    [[fallthrough]];
   case llvm::Instruction::SDiv:
     if (Lop == std::numeric_limits<int64_t>::min() &&
         Rop == -1) { // Would produce and overflow, as the complement of min is
@@ -139,9 +153,13 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
-    return Lop / Rop;
+    return Fit(Lop / Rop);
 
   case llvm::Instruction::URem:
+    if (Lop < 0 || Rop < 0) { // Not what the signed remainder computes
+      return Bottom{};
+    }
+    [[fallthrough]];
   case llvm::Instruction::SRem:
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
@@ -205,23 +223,25 @@ struct BinOp {
     PHASAR_LOG_LEVEL(DEBUG, "Curr Node : " << llvmIRToString(CurrNode));
     PHASAR_LOG_LEVEL(DEBUG, ' ');
 
+    const unsigned BitWidth = Lop->getType()->getIntegerBitWidth();
+
     if (LLVMZeroValue::isLLVMZeroValue(CurrNode) &&
         llvm::isa<llvm::ConstantInt>(Lop) &&
         llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue());
+      return executeBinOperation(Op, BitWidth, Lic->getSExtValue(), Ric->getSExtValue());
     }
     if (Source == Bottom{}) {
       return Source;
     }
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Source, Ric->getSExtValue());
+      return executeBinOperation(Op, BitWidth, Source, Ric->getSExtValue());
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Source);
+      return executeBinOperation(Op, BitWidth, Lic->getSExtValue(), Source);
     }
 
     llvm::report_fatal_error(
-- 
2.43.0


From 8a17197fd8ba89b524142c5c786d992eef2dcfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:43 +0000
Subject: [PATCH 41/66] fix: IDELinearConstantAnalysis takes overflow flags and
 saturated results for sums

---
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 11fb914..e99e648 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -371,7 +371,8 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
     /// no error occured during the operation
     if (const auto *BinIntrinsic =
             llvm::dyn_cast<llvm::BinaryOpIntrinsic>(Agg)) {
-      if (Extract->getType()->isIntegerTy()) {
+      // The second value is the overflow flag
+      if (Extract->getType()->isIntegerTy() && Extract->getIndices()[0] == 0) {
         return generateFlow(Curr, Agg);
       }
     }
@@ -599,6 +600,10 @@ IDELinearConstantAnalysis::getSummaryEdgeFunction(n_t Curr, d_t CurrNode,
     }
 
     if (Curr == SuccNode && CurrNode != SuccNode) {
+      if (llvm::isa<llvm::SaturatingInst>(Curr) && !BinIntrinsic->isSigned()) {
+        // Saturates where the signed BinOp has a representable result
+        return AllBottom<l_t>{};
+      }
       return lca::BinOp{OP, Lop, Rop, CurrNode};
     }
   }
-- 
2.43.0


From 3d29e47dcdca41533fc8130792ab647a9d996f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 42/66] fix: IDELinearConstantAnalysis reports constants
 although another path has a value that it does not compute

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 95 +++++++++++++++++--
 1 file changed, 85 insertions(+), 10 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index e99e648..30cb08b 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -309,6 +309,39 @@ IDELinearConstantAnalysis::~IDELinearConstantAnalysis() {
   lca::CurrBinaryId = 0;
 }
 
+/// Whether the analysis keeps track of values of type T. A fact that does not
+/// hold is neutral in joins, so all values of these types that we do not compute
+/// need to be generated explicitly (with BOTTOM)
+static bool isTrackedType(const llvm::Type *T) {
+  if (const auto *PT = llvm::dyn_cast<llvm::PointerType>(T)) {
+    const auto *ElemTy =
+        PT->isOpaque() ? nullptr : PT->getNonOpaquePointerElementType();
+    return ElemTy && (ElemTy->isIntegerTy() || isIntegerLikeType(ElemTy));
+  }
+  return T->isIntegerTy();
+}
+
+/// Whether V is a constant with unknown value, i.e., neither an integer literal
+/// nor a global variable which has its own fact
+static bool isUnknownConstant(const llvm::Value *V) {
+  return llvm::isa<llvm::Constant>(V) && !llvm::isa<llvm::ConstantInt>(V) &&
+         !llvm::isa<llvm::GlobalVariable>(V) && isTrackedType(V->getType());
+}
+
+/// Whether Store overwrites the integer at Ptr with a value of another type
+static bool isReinterpretingStore(const llvm::StoreInst *Store,
+                                  const llvm::Value *Ptr) {
+  return Ptr != Store->getPointerOperand() && isTrackedType(Ptr->getType()) &&
+         Ptr->getType()->getNonOpaquePointerElementType()->isIntegerTy() &&
+         Ptr->getType()->getNonOpaquePointerElementType() !=
+             Store->getValueOperand()->getType();
+}
+
+/// Whether V is generated from zero, when it is used as parameter or returned
+static bool isGeneratedConstant(const llvm::Value *V) {
+  return llvm::isa<llvm::ConstantInt>(V) || isUnknownConstant(V);
+}
+
 // Start formulating our analysis by specifying the parts required for IFDS
 
 IDELinearConstantAnalysis::FlowFunctionPtrType
@@ -325,7 +358,7 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
   if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(Curr)) {
     d_t ValueOp = Store->getValueOperand();
     // Case I: Storing a constant integer.
-    if (llvm::isa<llvm::ConstantInt>(ValueOp)) {
+    if (isGeneratedConstant(ValueOp)) {
       return strongUpdateStore(Store, LLVMZeroValue::isLLVMZeroValue);
     }
 
@@ -333,18 +366,28 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
     if (ValueOp->getType()->isIntegerTy()) {
       return strongUpdateStore(Store);
     }
+
+    // Case III: Storing something else into an integer
+    if (isReinterpretingStore(
+            Store, Store->getPointerOperand()->stripPointerCasts())) {
+      return strongUpdateStore(Store, LLVMZeroValue::isLLVMZeroValue);
+    }
   }
 
   if (const auto *GEP = llvm::dyn_cast<llvm::GetElementPtrInst>(Curr)) {
     if (GEP->getResultElementType()->isIntegerTy()) {
       const auto *Op = GEP->getPointerOperand();
-      return generateFlow(GEP, Op);
+      // Other fields or elements have their own values
+      if (GEP->hasAllZeroIndices() && isTrackedType(Op->getType())) {
+        return generateFlow(GEP, Op);
+      }
     }
   }
   // check load instructions
   if (const auto *Load = llvm::dyn_cast<llvm::LoadInst>(Curr)) {
     // only consider i32 load
-    if (Load->getType()->isIntegerTy()) {
+    if (Load->getType()->isIntegerTy() &&
+        !isUnknownConstant(Load->getPointerOperand())) {
       return generateFlowIf(Load, [Load](d_t Source) {
         return Source == Load->getPointerOperand();
       });
@@ -358,8 +401,8 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
       /// Intentionally include nonlinear operations here for being able to
       /// explicitly set them to BOTTOM in the edge function
       return (Lop == Source) || (Rop == Source) ||
-             (isZeroValue(Source) && llvm::isa<llvm::ConstantInt>(Lop) &&
-              llvm::isa<llvm::ConstantInt>(Rop));
+             (isZeroValue(Source) && llvm::isa<llvm::Constant>(Lop) &&
+              llvm::isa<llvm::Constant>(Rop));
     });
   }
 
@@ -378,6 +421,11 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
     }
   }
 
+  // All other instructions yield values that we do not know
+  if (isTrackedType(Curr->getType())) {
+    return generateFromZero(Curr);
+  }
+
   return identityFlow();
 }
 
@@ -388,7 +436,7 @@ IDELinearConstantAnalysis::getCallFlowFunction(n_t CallSite, f_t DestFun) {
     if (!DestFun->isDeclaration()) {
       return mapFactsToCallee(CS, DestFun, [](d_t Arg, d_t Source) {
         return Arg == Source || (LLVMZeroValue::isLLVMZeroValue(Source) &&
-                                 llvm::isa<llvm::ConstantInt>(Arg));
+                                 isGeneratedConstant(Arg));
       });
     }
   }
@@ -406,14 +454,17 @@ IDELinearConstantAnalysis::getRetFlowFunction(n_t CallSite, f_t /*CalleeFun*/,
       },
       [](d_t RetVal, d_t Source) {
         return RetVal == Source || (LLVMZeroValue::isLLVMZeroValue(Source) &&
-                                    llvm::isa<llvm::ConstantInt>(RetVal));
+                                    isGeneratedConstant(RetVal));
       });
 }
 
 IDELinearConstantAnalysis::FlowFunctionPtrType
 IDELinearConstantAnalysis::getCallToRetFlowFunction(
     n_t CallSite, n_t /*RetSite*/, llvm::ArrayRef<f_t> Callees) {
-  if (llvm::all_of(Callees, [](f_t Fun) { return Fun->isDeclaration(); })) {
+  // If the call may reach an external function, all facts survive
+  if (Callees.empty() || llvm::any_of(Callees, [](f_t Fun) {
+        return Fun->isDeclaration();
+      })) {
     return identityFlow();
   }
 
@@ -438,8 +489,12 @@ IDELinearConstantAnalysis::initialSeeds() {
           if (const auto *ConstInt =
                   llvm::dyn_cast<llvm::ConstantInt>(GV->getInitializer())) {
             Seeds.addSeed(SP, GV, ConstInt->getSExtValue());
+            continue;
           }
         }
+        if (isTrackedType(GV->getType())) {
+          Seeds.addSeed(SP, GV, bottomElement());
+        }
       }
     }
   });
@@ -459,8 +514,8 @@ IDELinearConstantAnalysis::getSummaryFlowFunction(n_t Curr, f_t /*CalleeFun*/) {
       /// Intentionally include nonlinear operations here for being able to
       /// explicitly set them to BOTTOM in the edge function
       return (Lop == Source) || (Rop == Source) ||
-             (isZeroValue(Source) && llvm::isa<llvm::ConstantInt>(Lop) &&
-              llvm::isa<llvm::ConstantInt>(Rop));
+             (isZeroValue(Source) && llvm::isa<llvm::Constant>(Lop) &&
+              llvm::isa<llvm::Constant>(Rop));
     });
   }
   return nullptr;
@@ -498,6 +553,10 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
     d_t ValueOperand = Store->getValueOperand();
     if (PointerOperand == SuccNode ||
         PointerOperand->stripPointerCasts() == SuccNode) {
+      // The value is not the one that is stored
+      if (CurrNode != SuccNode && isReinterpretingStore(Store, SuccNode)) {
+        return AllBottom<l_t>{};
+      }
       // Case I: Storing a constant integer.
       if (isZeroValue(CurrNode) && llvm::isa<llvm::ConstantInt>(ValueOperand)) {
         PHASAR_LOG_LEVEL(DEBUG, "Case: Storing constant integer.");
@@ -538,9 +597,19 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
       return AllBottom<l_t>{};
     }
 
+    if (isZeroValue(CurrNode) && (!llvm::isa<llvm::ConstantInt>(Lop) ||
+                                  !llvm::isa<llvm::ConstantInt>(Rop))) {
+      return AllBottom<l_t>{};
+    }
+
     return lca::BinOp(OP, Lop, Rop, CurrNode);
   }
 
+  // Everything else that is generated is unknown
+  if (isZeroValue(CurrNode)) {
+    return AllBottom<l_t>{};
+  }
+
   PHASAR_LOG_LEVEL(DEBUG, "Case: Edge identity.");
   PHASAR_LOG_LEVEL(DEBUG, ' ');
   return EdgeIdentity<l_t>{};
@@ -557,6 +626,7 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getCallEdgeFunction(
         auto IntConst = CI->getSExtValue();
         return lca::GenConstant{IntConst};
       }
+      return AllBottom<l_t>{};
     }
   }
   return EdgeIdentity<l_t>{};
@@ -573,6 +643,7 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getReturnEdgeFunction(
       auto IntConst = CI->getSExtValue();
       return lca::GenConstant{IntConst};
     }
+    return AllBottom<l_t>{};
   }
   return EdgeIdentity<l_t>{};
 }
@@ -600,6 +671,10 @@ IDELinearConstantAnalysis::getSummaryEdgeFunction(n_t Curr, d_t CurrNode,
     }
 
     if (Curr == SuccNode && CurrNode != SuccNode) {
+      if (isZeroValue(CurrNode) && (!llvm::isa<llvm::ConstantInt>(Lop) ||
+                                    !llvm::isa<llvm::ConstantInt>(Rop))) {
+        return AllBottom<l_t>{};
+      }
       if (llvm::isa<llvm::SaturatingInst>(Curr) && !BinIntrinsic->isSigned()) {
         // Saturates where the signed BinOp has a representable result
         return AllBottom<l_t>{};
-- 
2.43.0


From e5c8f4c88b36da7cf374f20994537f32c6ddc665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 43/66] fix: IDELinearConstantAnalysis asserts on integer
 constants that do not fit into 64 bits

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 72 ++++++++++---------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 30cb08b..bfb902a 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -57,6 +57,14 @@ using d_t = IDELinearConstantAnalysisDomain::d_t;
 static unsigned CurrGenConstantId = 0; // NOLINT
 static unsigned CurrBinaryId = 0;      // NOLINT
 
+/// V as an integer literal that is representable as l_t; otherwise nullptr
+static const llvm::ConstantInt *getLiteral(const llvm::Value *V) {
+  const auto *CI = llvm::dyn_cast_or_null<llvm::ConstantInt>(V);
+  return CI && CI->getValue().getMinSignedBits() <= 64 ? CI : nullptr;
+}
+
+static bool isLiteral(const llvm::Value *V) { return getLiteral(V) != nullptr; }
+
 struct LCAEdgeFunctionComposer : EdgeFunctionComposer<l_t> {
 
   static EdgeFunction<l_t> join(EdgeFunctionRef<LCAEdgeFunctionComposer> This,
@@ -225,22 +233,22 @@ struct BinOp {
 
     const unsigned BitWidth = Lop->getType()->getIntegerBitWidth();
 
-    if (LLVMZeroValue::isLLVMZeroValue(CurrNode) &&
-        llvm::isa<llvm::ConstantInt>(Lop) &&
-        llvm::isa<llvm::ConstantInt>(Rop)) {
-      const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, BitWidth, Lic->getSExtValue(), Ric->getSExtValue());
+    if (LLVMZeroValue::isLLVMZeroValue(CurrNode) && isLiteral(Lop) &&
+        isLiteral(Rop)) {
+      const auto *Lic = getLiteral(Lop);
+      const auto *Ric = getLiteral(Rop);
+      return executeBinOperation(Op, BitWidth, Lic->getSExtValue(),
+                                 Ric->getSExtValue());
     }
     if (Source == Bottom{}) {
       return Source;
     }
-    if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
-      const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
+    if (Lop == CurrNode && isLiteral(Rop)) {
+      const auto *Ric = getLiteral(Rop);
       return executeBinOperation(Op, BitWidth, Source, Ric->getSExtValue());
     }
-    if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
-      const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
+    if (Rop == CurrNode && isLiteral(Lop)) {
+      const auto *Lic = getLiteral(Lop);
       return executeBinOperation(Op, BitWidth, Lic->getSExtValue(), Source);
     }
 
@@ -272,13 +280,13 @@ struct BinOp {
 
   friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS,
                                        const BinOp &BOP) {
-    if (const auto *LIC = llvm::dyn_cast<llvm::ConstantInt>(BOP.Lop)) {
+    if (const auto *LIC = getLiteral(BOP.Lop)) {
       OS << LIC->getSExtValue();
     } else {
       OS << "ID:" << getMetaDataID(BOP.Lop);
     }
     OS << ' ' << opToChar(BOP.Op) << ' ';
-    if (const auto *RIC = llvm::dyn_cast<llvm::ConstantInt>(BOP.Rop)) {
+    if (const auto *RIC = getLiteral(BOP.Rop)) {
       OS << RIC->getSExtValue();
     } else {
       OS << "ID:" << getMetaDataID(BOP.Rop);
@@ -310,8 +318,8 @@ IDELinearConstantAnalysis::~IDELinearConstantAnalysis() {
 }
 
 /// Whether the analysis keeps track of values of type T. A fact that does not
-/// hold is neutral in joins, so all values of these types that we do not compute
-/// need to be generated explicitly (with BOTTOM)
+/// hold is neutral in joins, so all values of these types that we do not
+/// compute need to be generated explicitly (with BOTTOM)
 static bool isTrackedType(const llvm::Type *T) {
   if (const auto *PT = llvm::dyn_cast<llvm::PointerType>(T)) {
     const auto *ElemTy =
@@ -324,7 +332,7 @@ static bool isTrackedType(const llvm::Type *T) {
 /// Whether V is a constant with unknown value, i.e., neither an integer literal
 /// nor a global variable which has its own fact
 static bool isUnknownConstant(const llvm::Value *V) {
-  return llvm::isa<llvm::Constant>(V) && !llvm::isa<llvm::ConstantInt>(V) &&
+  return llvm::isa<llvm::Constant>(V) && !lca::isLiteral(V) &&
          !llvm::isa<llvm::GlobalVariable>(V) && isTrackedType(V->getType());
 }
 
@@ -339,7 +347,7 @@ static bool isReinterpretingStore(const llvm::StoreInst *Store,
 
 /// Whether V is generated from zero, when it is used as parameter or returned
 static bool isGeneratedConstant(const llvm::Value *V) {
-  return llvm::isa<llvm::ConstantInt>(V) || isUnknownConstant(V);
+  return lca::isLiteral(V) || isUnknownConstant(V);
 }
 
 // Start formulating our analysis by specifying the parts required for IFDS
@@ -462,9 +470,8 @@ IDELinearConstantAnalysis::FlowFunctionPtrType
 IDELinearConstantAnalysis::getCallToRetFlowFunction(
     n_t CallSite, n_t /*RetSite*/, llvm::ArrayRef<f_t> Callees) {
   // If the call may reach an external function, all facts survive
-  if (Callees.empty() || llvm::any_of(Callees, [](f_t Fun) {
-        return Fun->isDeclaration();
-      })) {
+  if (Callees.empty() ||
+      llvm::any_of(Callees, [](f_t Fun) { return Fun->isDeclaration(); })) {
     return identityFlow();
   }
 
@@ -486,8 +493,7 @@ IDELinearConstantAnalysis::initialSeeds() {
     for (const auto &G : IRDB->getModule()->globals()) {
       if (const auto *GV = llvm::dyn_cast<llvm::GlobalVariable>(&G)) {
         if (GV->hasInitializer()) {
-          if (const auto *ConstInt =
-                  llvm::dyn_cast<llvm::ConstantInt>(GV->getInitializer())) {
+          if (const auto *ConstInt = lca::getLiteral(GV->getInitializer())) {
             Seeds.addSeed(SP, GV, ConstInt->getSExtValue());
             continue;
           }
@@ -558,10 +564,10 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
         return AllBottom<l_t>{};
       }
       // Case I: Storing a constant integer.
-      if (isZeroValue(CurrNode) && llvm::isa<llvm::ConstantInt>(ValueOperand)) {
+      if (isZeroValue(CurrNode) && lca::isLiteral(ValueOperand)) {
         PHASAR_LOG_LEVEL(DEBUG, "Case: Storing constant integer.");
         PHASAR_LOG_LEVEL(DEBUG, ' ');
-        const auto *CI = llvm::dyn_cast<llvm::ConstantInt>(ValueOperand);
+        const auto *CI = lca::getLiteral(ValueOperand);
         auto IntConst = CI->getSExtValue();
         return lca::GenConstant{IntConst};
       }
@@ -592,13 +598,13 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
     auto *Lop = Curr->getOperand(0);
     auto *Rop = Curr->getOperand(1);
     // For non linear constant computation we propagate bottom
-    if ((CurrNode == Lop && !llvm::isa<llvm::ConstantInt>(Rop)) ||
-        (CurrNode == Rop && !llvm::isa<llvm::ConstantInt>(Lop))) {
+    if ((CurrNode == Lop && !lca::isLiteral(Rop)) ||
+        (CurrNode == Rop && !lca::isLiteral(Lop))) {
       return AllBottom<l_t>{};
     }
 
-    if (isZeroValue(CurrNode) && (!llvm::isa<llvm::ConstantInt>(Lop) ||
-                                  !llvm::isa<llvm::ConstantInt>(Rop))) {
+    if (isZeroValue(CurrNode) &&
+        (!lca::isLiteral(Lop) || !lca::isLiteral(Rop))) {
       return AllBottom<l_t>{};
     }
 
@@ -622,7 +628,7 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getCallEdgeFunction(
     if (const auto *A = llvm::dyn_cast<llvm::Argument>(DestNode)) {
       const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
       const auto *Actual = CS->getArgOperand(getFunctionArgumentNr(A));
-      if (const auto *CI = llvm::dyn_cast<llvm::ConstantInt>(Actual)) {
+      if (const auto *CI = lca::getLiteral(Actual)) {
         auto IntConst = CI->getSExtValue();
         return lca::GenConstant{IntConst};
       }
@@ -639,7 +645,7 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getReturnEdgeFunction(
   if (isZeroValue(ExitNode) && !isZeroValue(RetNode)) {
     const auto *Return = llvm::cast<llvm::ReturnInst>(ExitStmt);
     auto *ReturnValue = Return->getReturnValue();
-    if (auto *CI = llvm::dyn_cast_or_null<llvm::ConstantInt>(ReturnValue)) {
+    if (auto *CI = lca::getLiteral(ReturnValue)) {
       auto IntConst = CI->getSExtValue();
       return lca::GenConstant{IntConst};
     }
@@ -665,14 +671,14 @@ IDELinearConstantAnalysis::getSummaryEdgeFunction(n_t Curr, d_t CurrNode,
     unsigned OP = BinIntrinsic->getBinaryOp();
 
     // For non linear constant computation we propagate bottom
-    if ((CurrNode == Lop && !llvm::isa<llvm::ConstantInt>(Rop)) ||
-        (CurrNode == Rop && !llvm::isa<llvm::ConstantInt>(Lop))) {
+    if ((CurrNode == Lop && !lca::isLiteral(Rop)) ||
+        (CurrNode == Rop && !lca::isLiteral(Lop))) {
       return AllBottom<l_t>{};
     }
 
     if (Curr == SuccNode && CurrNode != SuccNode) {
-      if (isZeroValue(CurrNode) && (!llvm::isa<llvm::ConstantInt>(Lop) ||
-                                    !llvm::isa<llvm::ConstantInt>(Rop))) {
+      if (isZeroValue(CurrNode) &&
+          (!lca::isLiteral(Lop) || !lca::isLiteral(Rop))) {
         return AllBottom<l_t>{};
       }
       if (llvm::isa<llvm::SaturatingInst>(Curr) && !BinIntrinsic->isSigned()) {
-- 
2.43.0


From b12f9668052ff0646583e4ed130b07a773f5eabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:53 +0000
Subject: [PATCH 44/66] fix: IFDSUninitializedVariables misses uninitialized
 globals, undef arguments and results, and out-parameters of indirect calls

---
 .../Problems/IFDSUninitializedVariables.cpp   | 76 ++++++++++++-------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 68e360b..ff394e9 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -27,6 +27,7 @@
 #include "llvm/IR/Value.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <utility>
 
 namespace psr {
@@ -246,17 +247,23 @@ IFDSUninitializedVariables::getCallFlowFunction(
       std::set<IFDSUninitializedVariables::d_t>
       computeTargets(IFDSUninitializedVariables::d_t Source) override {
         // perform parameter passing
-        if (Source != Zerovalue) {
-          std::set<const llvm::Value *> Res;
-          // do the mapping from actual to formal parameters
-          // caution: the loop iterates from 0 to formals.size(),
-          // rather than actuals.size() as we may have more actual
-          // than formal arguments in case of C-style varargs
-          for (unsigned Idx = 0; Idx < Formals.size(); ++Idx) {
-            if (Source == Actuals[Idx]) {
-              Res.insert(Formals[Idx]);
-            }
+        std::set<const llvm::Value *> Res;
+        // do the mapping from actual to formal parameters
+        // caution: we may have more actual than formal arguments in case of
+        // C-style varargs, and less in case of a mismatching function type
+        for (size_t Idx = 0; Idx < std::min(Formals.size(), Actuals.size());
+             ++Idx) {
+          if (Source == Actuals[Idx] ||
+              (Source == Zerovalue &&
+               llvm::isa<llvm::UndefValue>(Actuals[Idx]))) {
+            Res.insert(Formals[Idx]);
           }
+        }
+        // the callee can access the globals
+        if (llvm::isa<llvm::GlobalVariable>(Source) && Source != Zerovalue) {
+          Res.insert(Source);
+        }
+        if (Source != Zerovalue) {
           return Res;
         }
 
@@ -289,7 +296,8 @@ IFDSUninitializedVariables::getCallFlowFunction(
         return res;*/
 
         // propagate zero
-        return {Source};
+        Res.insert(Source);
+        return Res;
       }
     };
     return std::make_shared<UVFF>(DestFun, CS, getZeroValue());
@@ -300,7 +308,7 @@ IFDSUninitializedVariables::getCallFlowFunction(
 IFDSUninitializedVariables::FlowFunctionPtrType
 IFDSUninitializedVariables::getRetFlowFunction(
     IFDSUninitializedVariables::n_t CallSite,
-    IFDSUninitializedVariables::f_t /*CalleeFun*/,
+    IFDSUninitializedVariables::f_t CalleeFun,
     IFDSUninitializedVariables::n_t ExitStmt,
     IFDSUninitializedVariables::n_t /*RetSite*/) {
   if (llvm::isa<llvm::CallInst>(CallSite) ||
@@ -308,35 +316,41 @@ IFDSUninitializedVariables::getRetFlowFunction(
     const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
     struct UVFF : FlowFunction<IFDSUninitializedVariables::d_t> {
       const llvm::CallBase *Call;
+      const llvm::Function *Callee;
       const llvm::Instruction *Exit;
-      UVFF(const llvm::CallBase *C, const llvm::Instruction *E)
-          : Call(C), Exit(E) {}
+      const llvm::Value *Zero;
+      UVFF(const llvm::CallBase *C, const llvm::Function *F,
+           const llvm::Instruction *E, const llvm::Value *Zero)
+          : Call(C), Callee(F), Exit(E), Zero(Zero) {}
       std::set<IFDSUninitializedVariables::d_t>
       computeTargets(IFDSUninitializedVariables::d_t Source) override {
         // check if we return an uninitialized value
         std::set<IFDSUninitializedVariables::d_t> Ret;
-        if (Exit->getNumOperands() > 0 && Exit->getOperand(0) == Source) {
+        if (Exit->getNumOperands() > 0 &&
+            (Exit->getOperand(0) == Source ||
+             (Source == Zero &&
+              llvm::isa<llvm::UndefValue>(Exit->getOperand(0))))) {
           Ret.insert(Call);
         }
         //----------------------------------------------------------------------
         // Handle pointer/reference parameters
         //----------------------------------------------------------------------
-        if (Call->getCalledFunction()) {
-          unsigned I = 0;
-          for (const auto &Arg : Call->getCalledFunction()->args()) {
-            // auto arg = getNthFunctionArgument(call.getCalledFunction(), i);
-            if (&Arg == Source && Arg.getType()->isPointerTy()) {
-              Ret.insert(Call->getArgOperand(I));
-            }
-            I++;
+        for (const auto &Arg : Callee->args()) {
+          if (&Arg == Source && Arg.getType()->isPointerTy() &&
+              Arg.getArgNo() < Call->arg_size()) {
+            Ret.insert(Call->getArgOperand(Arg.getArgNo()));
           }
         }
+        // globals are the same in the caller
+        if (llvm::isa<llvm::GlobalVariable>(Source) && Source != Zero) {
+          Ret.insert(Source);
+        }
 
         // kill all other facts
         return Ret;
       }
     };
-    return std::make_shared<UVFF>(CS, ExitStmt);
+    return std::make_shared<UVFF>(CS, CalleeFun, ExitStmt, getZeroValue());
   }
   // kill everything else
   return killAllFlows();
@@ -345,13 +359,21 @@ IFDSUninitializedVariables::getRetFlowFunction(
 IFDSUninitializedVariables::FlowFunctionPtrType
 IFDSUninitializedVariables::getCallToRetFlowFunction(
     IFDSUninitializedVariables::n_t CallSite,
-    IFDSUninitializedVariables::n_t /*RetSite*/,
-    llvm::ArrayRef<f_t> /*Callees*/) {
+    IFDSUninitializedVariables::n_t /*RetSite*/, llvm::ArrayRef<f_t> Callees) {
   //----------------------------------------------------------------------
   // Handle pointer/reference parameters
   //----------------------------------------------------------------------
   if (const auto *CS = llvm::dyn_cast<llvm::CallBase>(CallSite)) {
-    return lambdaFlow([CS](d_t Source) -> std::set<d_t> {
+    // globals go through the callees, if we know the code of all of them
+    bool KillGlobals =
+        !Callees.empty() && llvm::none_of(Callees, [](f_t Callee) {
+          return Callee->isDeclaration();
+        });
+    return lambdaFlow([CS, KillGlobals, this](d_t Source) -> std::set<d_t> {
+      if (KillGlobals && llvm::isa<llvm::GlobalVariable>(Source) &&
+          !isZeroValue(Source)) {
+        return {};
+      }
       if (Source->getType()->isPointerTy()) {
         for (const auto &Arg : CS->args()) {
           if (Arg.get() == Source) {
-- 
2.43.0


From 4a6b919e1aa41f025e3cac7595d4500096abec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 45/66] fix: IFDSTaintAnalysis loses what a pointer parameter
 points to, if the parameter is used once

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 5a52509..6d1462f 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -183,9 +183,14 @@ void IFDSTaintAnalysis::populateWithMustAliases(
   /// may-aliases
 }
 
+/// The caller still sees what a parameter points to
+static bool isPointerParameter(d_t Val) {
+  return llvm::isa<llvm::Argument>(Val) && Val->getType()->isPointerTy();
+}
+
 static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
                                                                   d_t From) {
-  if (From->hasNUsesOrMore(2)) {
+  if (From->hasNUsesOrMore(2) || isPointerParameter(From)) {
     return FlowFunctionTemplates<d_t, container_type>::transferFlow(To, From);
   }
   return FlowFunctionTemplates<d_t, container_type>::lambdaFlow(
@@ -262,15 +267,15 @@ transferAndKillTwoFlows(d_t To, d_t From1, d_t From2) {
       });
 }
 
-auto IFDSTaintAnalysis::getNormalFlowFunction(n_t Curr,
-                                              [[maybe_unused]] n_t Succ)
-    -> FlowFunctionPtrType {
+auto IFDSTaintAnalysis::getNormalFlowFunction(
+    n_t Curr, [[maybe_unused]] n_t Succ) -> FlowFunctionPtrType {
   // If a tainted value is stored, the store location must be tainted too
   if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(Curr)) {
     container_type Gen;
     Gen.insert(Store->getPointerOperand());
     populateWithMayAliases(Gen, Store);
-    if (Store->getValueOperand()->hasNUsesOrMore(2)) {
+    if (Store->getValueOperand()->hasNUsesOrMore(2) ||
+        isPointerParameter(Store->getValueOperand())) {
       Gen.insert(Store->getValueOperand());
     }
 
@@ -329,10 +334,9 @@ auto IFDSTaintAnalysis::getCallFlowFunction(n_t CallSite, f_t DestFun)
   return mapFactsToCallee(CS, DestFun);
 }
 
-auto IFDSTaintAnalysis::getRetFlowFunction(n_t CallSite, f_t /*CalleeFun*/,
-                                           n_t ExitStmt,
-                                           [[maybe_unused]] n_t RetSite)
-    -> FlowFunctionPtrType {
+auto IFDSTaintAnalysis::getRetFlowFunction(
+    n_t CallSite, f_t /*CalleeFun*/, n_t ExitStmt,
+    [[maybe_unused]] n_t RetSite) -> FlowFunctionPtrType {
   // We must check if the return value and formal parameter are tainted, if so
   // we must taint all user's of the function call. We are only interested in
   // formal parameters of pointer/reference type.
@@ -349,10 +353,9 @@ auto IFDSTaintAnalysis::getRetFlowFunction(n_t CallSite, f_t /*CalleeFun*/,
   // All other stuff is killed at this point
 }
 
-auto IFDSTaintAnalysis::getCallToRetFlowFunction(n_t CallSite,
-                                                 [[maybe_unused]] n_t RetSite,
-                                                 llvm::ArrayRef<f_t> Callees)
-    -> FlowFunctionPtrType {
+auto IFDSTaintAnalysis::getCallToRetFlowFunction(
+    n_t CallSite, [[maybe_unused]] n_t RetSite,
+    llvm::ArrayRef<f_t> Callees) -> FlowFunctionPtrType {
 
   const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
 
-- 
2.43.0


From 0f6c09a6f158f5b9f4dc19bfff334c34cdb1277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 46/66] fix: IFDSTaintAnalysis does not propagate taints
 through phi, select and freeze

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 6d1462f..f38dcba 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -314,6 +314,26 @@ auto IFDSTaintAnalysis::getNormalFlowFunction(
   if (const auto *Cast = llvm::dyn_cast<llvm::CastInst>(Curr)) {
     return transferFlow(Cast, Cast->getOperand(0));
   }
+  if (const auto *Freeze = llvm::dyn_cast<llvm::FreezeInst>(Curr)) {
+    return transferFlow(Freeze, Freeze->getOperand(0));
+  }
+  // Check if one of several values that may be chosen is tainted
+  if (llvm::isa<llvm::PHINode, llvm::SelectInst>(Curr)) {
+    return lambdaFlow([Curr](d_t Source) -> container_type {
+      if (const auto *Select = llvm::dyn_cast<llvm::SelectInst>(Curr)) {
+        if (Source == Select->getTrueValue() ||
+            Source == Select->getFalseValue()) {
+          return {Source, Curr};
+        }
+      } else if (llvm::is_contained(Curr->operand_values(), Source)) {
+        return {Source, Curr};
+      }
+      if (Source == Curr) {
+        return {};
+      }
+      return {Source};
+    });
+  }
 
   // Otherwise we do not care and leave everything as it is
   return identityFlow();
-- 
2.43.0


From 597bd70a1fdef87cf8b2a4c99486ad6ac7a91eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 47/66] fix: IFDSTaintAnalysis loses taints at copies of memory

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index f38dcba..590e800 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -30,6 +30,7 @@
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instruction.h"
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 #include "llvm/IR/LLVMContext.h"
 #include "llvm/IR/Value.h"
 #include "llvm/Support/Casting.h"
@@ -431,8 +432,8 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       // Note: The LLVMfdff is constant during the lifetime of the analysis, so
       // it is fine to capture a reference here:
       const auto &DestFunFacts = Llvmfdff.getFactsForFunction(DestFun);
-      return lambdaFlow([CallSite, DestFun,
-                         &DestFunFacts](d_t Source) -> container_type {
+      return lambdaFlow([CallSite, DestFun, &DestFunFacts,
+                         this](d_t Source) -> container_type {
         std::set<d_t> Facts;
         const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
         for (const auto &[Arg, DestParam] :
@@ -451,11 +452,27 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
             }
           }
         }
+        populateWithMayAliases(Facts, CallSite);
         Facts.insert(Source);
         return Facts;
       });
     }
 
+    if (const auto *MemTrn = llvm::dyn_cast<llvm::MemTransferInst>(CallSite)) {
+      // memcpy and memmove, e.g. assignments of structs
+      Gen.insert(MemTrn->getRawDest());
+      populateWithMayAliases(Gen, CallSite);
+      return lambdaFlow(
+          [MemTrn, Gen{std::move(Gen)}](d_t Source) -> container_type {
+            if (Source == MemTrn->getRawSource()) {
+              auto Facts = Gen;
+              Facts.insert(Source);
+              return Facts;
+            }
+            return {Source};
+          });
+    }
+
     // not found
     return nullptr;
   }
-- 
2.43.0


From 194085795a48e062a52d0b82bc00ae736aebcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:28 +0000
Subject: [PATCH 48/66] fix: IFDSTaintAnalysis ignores sanitizers without body,
 of globals and given by a callback

---
 .../TaintConfig/TaintConfigUtilities.h        |  6 ++++
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 33 +++++++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
index aa7941d..f283ded 100644
--- a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
+++ b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
@@ -79,6 +79,12 @@ template <typename ContainerTy,
 void collectSanitizedFacts(ContainerTy &Dest, const LLVMTaintConfig &Config,
                            const llvm::CallBase *CB,
                            const llvm::Function *Callee) {
+  const auto &Callback = Config.getRegisteredSanitizerCallBack();
+  if (Callback) {
+    auto CBFacts = Callback(CB);
+    Dest.insert(CBFacts.begin(), CBFacts.end());
+  }
+
   for (unsigned I = 0, End = Callee->arg_size(); I < End; ++I) {
     if (Config.isSanitizer(Callee->getArg(I))) {
       Dest.insert(CB->getArgOperand(I));
diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 590e800..ab7e83f 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -26,6 +26,7 @@
 
 #include "llvm/ADT/ArrayRef.h"
 #include "llvm/ADT/STLExtras.h"
+#include "llvm/ADT/SetOperations.h"
 #include "llvm/IR/GlobalVariable.h"
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instruction.h"
@@ -383,9 +384,32 @@ auto IFDSTaintAnalysis::getCallToRetFlowFunction(
   bool HasDeclOnly = llvm::any_of(
       Callees, [](const auto *DestFun) { return DestFun->isDeclaration(); });
 
-  return mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
+  auto Mapper = mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
     return HasDeclOnly || !Arg->getType()->isPointerTy();
   });
+
+  // What all callees sanitize, is not tainted anymore
+  container_type Sanitized;
+  for (const auto *Callee : Callees) {
+    container_type Kill;
+    collectSanitizedFacts(Kill, *Config, CS, Callee);
+    if (Callee == Callees.front()) {
+      Sanitized = std::move(Kill);
+    } else {
+      llvm::set_intersect(Sanitized, Kill);
+    }
+  }
+  if (Sanitized.empty()) {
+    return Mapper;
+  }
+
+  return lambdaFlow(
+      [Mapper, Sanitized{std::move(Sanitized)}](d_t Source) -> container_type {
+        if (Sanitized.count(Source)) {
+          return {};
+        }
+        return Mapper->computeTargets(Source);
+      });
 }
 
 auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
@@ -502,7 +526,8 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // Gen nonempty
 
   Gen.insert(LLVMZeroValue::getInstance());
-  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)}, this,
+  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)},
+                     Kill{std::move(Kill)}, this,
                      CallSite](d_t Source) -> container_type {
     if (LLVMZeroValue::isLLVMZeroValue(Source)) {
       return Gen;
@@ -515,6 +540,10 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       }
     }
 
+    if (Kill.count(Source)) {
+      return {};
+    }
+
     return {Source};
   });
 }
-- 
2.43.0


From 246054607469cfe092f26155c0d0b2ece04ac563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 49/66] fix: path constraints: a branch with equal targets
 constrains nothing

---
 .../DataFlow/PathSensitivity/LLVMPathConstraints.cpp          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 9ea5c94..e7e7c2e 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -28,6 +28,10 @@ auto LLVMPathConstraints::internalGetConstraintAndVariablesFromEdge(
   }
 
   if (IgnoreDebugInstructions) {
+  if (BI->getSuccessor(0) == BI->getSuccessor(1)) {
+    /// The condition does not matter
+    return std::nullopt;
+  }
     while (const auto *Prev = To->getPrevNonDebugInstruction(false)) {
       To = Prev;
     }
-- 
2.43.0


From ecf159e5953c0a2880cd9d10b99377a57dc89943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 50/66] fix: path constraints: negate the condition of a
 truncated bool for the false branch

---
 .../DataFlow/PathSensitivity/LLVMPathConstraints.cpp           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index e7e7c2e..7a2031d 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -220,6 +220,9 @@ auto LLVMPathConstraints::handleCondBrInst(const llvm::BranchInst *Br,
         Ret.Constraint = (Ret.Constraint % 2 == 1);
         return Ret;
       }
+        if (IfFalse && GetFirstInst(IfFalse) == Succ) {
+          Ret.Constraint = !Ret.Constraint;
+        }
     }
   }
   if (const auto *Phi = llvm::dyn_cast<llvm::PHINode>(Cond)) {
-- 
2.43.0


From 5bba3fceb15805b45ec90450800e1a2db42e15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 51/66] fix: path constraints: compare unsigned values as
 unsigned

---
 .../PathSensitivity/LLVMPathConstraints.cpp   | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 7a2031d..7f47e63 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -3,6 +3,8 @@
 #include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
 #include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
 
+#include "llvm/ADT/APInt.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/Demangle/Demangle.h"
 #include "llvm/IR/Instructions.h"
 #include "llvm/IR/IntrinsicInst.h"
@@ -275,6 +277,24 @@ auto LLVMPathConstraints::handleCmpInst(const llvm::CmpInst *Cmp)
   auto RhsZ3Expr = HandleOperand(Rhs);
   LhsZ3Expr.Variables.append(RhsZ3Expr.Variables);
 
+  if (Cmp->isUnsigned()) {
+    /// Integers are modelled by their signed values, so the negative ones
+    /// denote large unsigned values
+    auto ToUnsigned = [this](const z3::expr &E, const llvm::Value *Op) {
+      if (!E.is_int()) {
+        return E;
+      }
+      auto NumBits = Op->getType()->getScalarSizeInBits();
+      auto Modulus = Z3Ctx->int_val(
+          llvm::toString(llvm::APInt::getOneBitSet(NumBits + 1, NumBits),
+                         /*Radix=*/10, /*Signed=*/false)
+              .c_str());
+      return z3::ite(E < 0, E + Modulus, E);
+    };
+    LhsZ3Expr.Constraint = ToUnsigned(LhsZ3Expr.Constraint, Lhs);
+    RhsZ3Expr.Constraint = ToUnsigned(RhsZ3Expr.Constraint, Rhs);
+  }
+
   switch (Cmp->getPredicate()) {
     // Opcode            U L G E    Intuitive operation
   case llvm::CmpInst::Predicate::FCMP_FALSE: ///< 0 0 0 0    Always false
-- 
2.43.0


From aa01ced0f768720cfb608c4eeb47172db76b0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:37 +0000
Subject: [PATCH 52/66] fix: path constraints: do not mix up different calls,
 fields and unnamed variables

---
 .../PathSensitivity/LLVMPathConstraints.h     |  9 ++++
 .../PathSensitivity/LLVMPathConstraints.cpp   | 51 ++++++++++++++-----
 2 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h b/include/phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h
index 887f4f5..4a41c08 100644
--- a/include/phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h
+++ b/include/phasar/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.h
@@ -12,11 +12,15 @@
 
 #include "phasar/Utils/MaybeUniquePtr.h"
 
+#include "llvm/ADT/SmallPtrSet.h"
 #include "llvm/ADT/SmallVector.h"
+#include "llvm/ADT/StringMap.h"
+#include "llvm/ADT/StringRef.h"
 
 #include "z3++.h"
 
 #include <optional>
+#include <string>
 
 namespace llvm {
 class Value;
@@ -57,6 +61,10 @@ private:
   internalGetConstraintAndVariablesFromEdge(const llvm::Instruction *From,
                                             const llvm::Instruction *To);
 
+  /// A name for V's Z3 constant, based on Name
+  [[nodiscard]] std::string getUniqueName(llvm::StringRef Name,
+                                          const llvm::Value *V);
+
   /// Allocas are the most basic building blocks and represent a leaf value.
   [[nodiscard]] ConstraintAndVariables
   getAllocaInstAsZ3(const llvm::AllocaInst *Alloca);
@@ -90,6 +98,7 @@ private:
 
   MaybeUniquePtr<z3::context> Z3Ctx;
   std::unordered_map<const llvm::Value *, ConstraintAndVariables> Z3Expr;
+  llvm::StringMap<llvm::SmallPtrSet<const llvm::Value *, 1>> UsedNames;
   bool IgnoreDebugInstructions;
 };
 } // namespace psr
diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 7f47e63..9c5ecd4 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -28,12 +28,12 @@ auto LLVMPathConstraints::internalGetConstraintAndVariablesFromEdge(
   if (!BI || !BI->isConditional()) {
     return std::nullopt;
   }
-
-  if (IgnoreDebugInstructions) {
   if (BI->getSuccessor(0) == BI->getSuccessor(1)) {
     /// The condition does not matter
     return std::nullopt;
   }
+
+  if (IgnoreDebugInstructions) {
     while (const auto *Prev = To->getPrevNonDebugInstruction(false)) {
       To = Prev;
     }
@@ -220,11 +220,11 @@ auto LLVMPathConstraints::handleCondBrInst(const llvm::BranchInst *Br,
               llvm::dyn_cast<llvm::LoadInst>(Trunc->getOperand(0))) {
         auto Ret = getLoadInstAsZ3(FromLoad);
         Ret.Constraint = (Ret.Constraint % 2 == 1);
-        return Ret;
-      }
         if (IfFalse && GetFirstInst(IfFalse) == Succ) {
           Ret.Constraint = !Ret.Constraint;
         }
+        return Ret;
+      }
     }
   }
   if (const auto *Phi = llvm::dyn_cast<llvm::PHINode>(Cond)) {
@@ -521,13 +521,37 @@ static llvm::StringRef getVarName(const llvm::AllocaInst *A) {
   return "";
 }
 
+std::string LLVMPathConstraints::getUniqueName(llvm::StringRef Name,
+                                               const llvm::Value *V) {
+  /// Local variables of different functions are identified by their name, but
+  /// apart from that, different values must not share a constant
+  auto MayShareName = [V](const llvm::Value *Other) {
+    if (V == Other) {
+      return true;
+    }
+    const auto *Var = llvm::dyn_cast<llvm::AllocaInst>(V);
+    const auto *OtherVar = llvm::dyn_cast<llvm::AllocaInst>(Other);
+    return Var && OtherVar && Var->getFunction() != OtherVar->getFunction();
+  };
+
+  std::string Ret = Name.str();
+  for (size_t I = 1; !llvm::all_of(UsedNames[Ret], MayShareName); ++I) {
+    Ret = (Name + "." + llvm::Twine(I)).str();
+  }
+  UsedNames[Ret].insert(V);
+  return Ret;
+}
+
 auto LLVMPathConstraints::getAllocaInstAsZ3(const llvm::AllocaInst *Alloca)
     -> ConstraintAndVariables {
   auto Search = Z3Expr.find(Alloca);
   if (Search != Z3Expr.end()) {
     return Search->second;
   }
-  std::string Name = getVarName(Alloca).str();
+  auto VarName = getVarName(Alloca);
+  std::string Name = getUniqueName(
+      !VarName.empty() ? VarName.str() : "alloca" + psr::getMetaDataID(Alloca),
+      Alloca);
   const auto *Ty = Alloca->getAllocatedType();
 
   if (const auto *IntTy = llvm::dyn_cast<llvm::IntegerType>(Ty)) {
@@ -601,8 +625,9 @@ auto LLVMPathConstraints::getLoadInstAsZ3(const llvm::LoadInst *Load)
 
 auto LLVMPathConstraints::getGEPInstAsZ3(const llvm::GetElementPtrInst *GEP)
     -> ConstraintAndVariables {
-  std::string Name =
-      (GEP->hasName()) ? GEP->getName().str() : "gep" + psr::getMetaDataID(GEP);
+  std::string Name = getUniqueName(
+      GEP->hasName() ? GEP->getName().str() : "gep" + psr::getMetaDataID(GEP),
+      GEP);
 
   /// TODO: Unify different GEPs of same memory locations
   const auto *Ty = GEP->getResultElementType();
@@ -663,20 +688,22 @@ auto LLVMPathConstraints::getFunctionCallAsZ3(const llvm::CallBase *CallSite)
     -> ConstraintAndVariables {
   if (const auto *Callee = CallSite->getCalledFunction()) {
     if (Callee->hasName()) {
-      auto DemangledName = llvm::demangle(Callee->getName().str());
+      /// Different calls may return different values
+      auto Name =
+          getUniqueName(llvm::demangle(Callee->getName().str()), CallSite);
       const auto *ReturnTy = Callee->getReturnType();
       if (ReturnTy->isFloatingPointTy()) {
-        return {Z3Ctx->real_const(DemangledName.c_str()), {Callee}};
+        return {Z3Ctx->real_const(Name.c_str()), {CallSite}};
       }
       if (ReturnTy->isIntegerTy()) {
         // case of bool
         if (ReturnTy->getIntegerBitWidth() == 1) {
-          return {Z3Ctx->bool_const(DemangledName.c_str()), {Callee}};
+          return {Z3Ctx->bool_const(Name.c_str()), {CallSite}};
         }
-        return {Z3Ctx->int_const(DemangledName.c_str()), {Callee}};
+        return {Z3Ctx->int_const(Name.c_str()), {CallSite}};
       }
       if (ReturnTy->isPointerTy()) {
-        return {Z3Ctx->bv_const(DemangledName.c_str(), 64), {Callee}};
+        return {Z3Ctx->bv_const(Name.c_str(), 64), {CallSite}};
       }
     }
   }
-- 
2.43.0


From 12a8772937e1fe24c720a2dc71d5eb0b25a3a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:05 +0000
Subject: [PATCH 53/66] fix: path constraints: division rounds towards zero,
 bit operations do not crash

---
 .../PathSensitivity/LLVMPathConstraints.cpp   | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
index 9c5ecd4..1d644bb 100644
--- a/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
+++ b/lib/PhasarLLVM/DataFlow/PathSensitivity/LLVMPathConstraints.cpp
@@ -21,8 +21,8 @@ LLVMPathConstraints::LLVMPathConstraints(z3::context *Z3Ctx,
 }
 
 auto LLVMPathConstraints::internalGetConstraintAndVariablesFromEdge(
-    const llvm::Instruction *From, const llvm::Instruction *To)
-    -> std::optional<ConstraintAndVariables> {
+    const llvm::Instruction *From,
+    const llvm::Instruction *To) -> std::optional<ConstraintAndVariables> {
   LLVMBasedCFG CF(IgnoreDebugInstructions);
   const auto *BI = llvm::dyn_cast<llvm::BranchInst>(From);
   if (!BI || !BI->isConditional()) {
@@ -61,8 +61,8 @@ LLVMPathConstraints::getConstraintFromEdge(const llvm::Instruction *Curr,
 }
 
 auto LLVMPathConstraints::getConstraintAndVariablesFromEdge(
-    const llvm::Instruction *Curr, const llvm::Instruction *Succ)
-    -> std::optional<ConstraintAndVariables> {
+    const llvm::Instruction *Curr,
+    const llvm::Instruction *Succ) -> std::optional<ConstraintAndVariables> {
   auto CV = internalGetConstraintAndVariablesFromEdge(Curr, Succ);
   if (CV) {
     /// Deduplicate the Variables vector
@@ -399,6 +399,12 @@ auto LLVMPathConstraints::handleCmpInst(const llvm::CmpInst *Cmp)
   return LhsZ3Expr;
 }
 
+/// Division in LLVM rounds towards zero; Z3 rounds such that the remainder is
+/// not negative
+static z3::expr truncatingDiv(const z3::expr &Lhs, const z3::expr &Rhs) {
+  return z3::ite(Lhs >= 0, Lhs / Rhs, -(-Lhs / Rhs));
+}
+
 auto LLVMPathConstraints::handleBinaryOperator(
     const llvm::BinaryOperator *BinOp) -> ConstraintAndVariables {
   auto Search = Z3Expr.find(BinOp);
@@ -437,6 +443,17 @@ auto LLVMPathConstraints::handleBinaryOperator(
   auto RhsZ3Expr = HandleOperand(Rhs);
   LhsZ3Expr.Variables.append(RhsZ3Expr.Variables);
 
+  const bool AreInts =
+      LhsZ3Expr.Constraint.is_int() && RhsZ3Expr.Constraint.is_int();
+
+  if (AreInts && (BinOp->isBitwiseLogicOp() || BinOp->isShift())) {
+    /// There are no bit operations on Z3's integers, so the result may be
+    /// anything
+    LhsZ3Expr.Constraint = Z3Ctx->int_const(
+        getUniqueName("bitop" + psr::getMetaDataID(BinOp), BinOp).c_str());
+    return Z3Expr.try_emplace(BinOp, LhsZ3Expr).first->second;
+  }
+
   /// TODO: Once we have bitvectors, we must distinguish between signed and
   /// unsigned div/rem operations!
 
@@ -456,11 +473,23 @@ auto LLVMPathConstraints::handleBinaryOperator(
   case llvm::Instruction::BinaryOps::UDiv:
   case llvm::Instruction::BinaryOps::SDiv:
   case llvm::Instruction::BinaryOps::FDiv:
+    if (AreInts) {
+      LhsZ3Expr.Constraint =
+          truncatingDiv(LhsZ3Expr.Constraint, RhsZ3Expr.Constraint);
+      break;
+    }
     LhsZ3Expr.Constraint = LhsZ3Expr.Constraint / RhsZ3Expr.Constraint;
     break;
   case llvm::Instruction::BinaryOps::URem:
   case llvm::Instruction::BinaryOps::SRem:
   case llvm::Instruction::BinaryOps::FRem:
+    if (AreInts) {
+      LhsZ3Expr.Constraint =
+          LhsZ3Expr.Constraint -
+          RhsZ3Expr.Constraint *
+              truncatingDiv(LhsZ3Expr.Constraint, RhsZ3Expr.Constraint);
+      break;
+    }
     LhsZ3Expr.Constraint = z3::rem(LhsZ3Expr.Constraint, RhsZ3Expr.Constraint);
     break;
   case llvm::Instruction::BinaryOps::Shl: // Shift left  (logical)
-- 
2.43.0


From 63d9f26b4d3ca33fa6f4779b6b96cbd9b0b92e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:27 +0000
Subject: [PATCH 54/66] fix: type states: an alias that is a parameter of the
 caller keeps its state over a call

---
 .../IfdsIde/Problems/IDETypeStateAnalysis.cpp       | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
index 4580fda..42be207 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
@@ -124,7 +124,7 @@ auto IDETypeStateAnalysisBase::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
     container_type Res;
     // Handle C-style varargs functions
     if (CalleeFun->isVarArg() && !CalleeFun->isDeclaration()) {
-      const llvm::Instruction *AllocVarArg;
+      const llvm::Instruction *AllocVarArg = nullptr;
       // Find the allocation of %struct.__va_list_tag
       for (const auto &BB : *CalleeFun) {
         for (const auto &I : BB) {
@@ -144,7 +144,7 @@ auto IDETypeStateAnalysisBase::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
         }
       }
       // Generate the varargs things by using an over-approximation
-      if (Source == AllocVarArg) {
+      if (AllocVarArg && Source == AllocVarArg) {
         for (unsigned Idx = CalleeFun->arg_size(); Idx < CS->arg_size();
              ++Idx) {
           Res.insert(CS->getArgOperand(Idx));
@@ -156,6 +156,15 @@ auto IDETypeStateAnalysisBase::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
     for (auto [Formal, Actual] : llvm::zip(CalleeFun->args(), CS->args())) {
       if (Source == &Formal) {
         Res.insert(Actual); // corresponding actual
+
+        // The aliases of the actual are killed at the call-to-return edge, so
+        // an aliasing parameter of the caller has to come back with the actual
+        for (const auto *Alias : getWMAliasSet(Actual)) {
+          const auto *Arg = llvm::dyn_cast<llvm::Argument>(Alias);
+          if (Arg && Arg->getParent() == CS->getFunction()) {
+            Res.insert(Arg);
+          }
+        }
       }
     }
 
-- 
2.43.0


From 6da1de225f1b0eab75e068df3286dda928efedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:36 +0000
Subject: [PATCH 55/66] fix: global dtors: registered dtors run in reverse
 order of registration and before the static ones; isPhasarGenerated knows the
 dtor callers

---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp     | 76 +++++++++++++------
 1 file changed, 54 insertions(+), 22 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index e6a5324..ac1be0b 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -15,9 +15,12 @@
 #include "phasar/Utils/Logger.h"
 
 #include "llvm/ADT/ArrayRef.h"
+#include "llvm/ADT/SetVector.h"
 #include "llvm/IR/IRBuilder.h"
+#include "llvm/IR/InstIterator.h"
 
 #include <functional>
+#include <limits>
 
 namespace psr {
 template <typename MapTy>
@@ -61,8 +64,32 @@ collectGlobalDtors(const llvm::Module &Mod) {
   return Ret;
 }
 
+/// All functions of the module, in the order in which they are executed at
+/// program startup, followed by the ones that are not executed then
+static llvm::SetVector<llvm::Function *> collectFunctionsInStartupOrder(
+    llvm::Module &Mod,
+    const std::multimap<size_t, llvm::Function *> &GlobalCtors) {
+  llvm::SetVector<llvm::Function *> Ret;
+  for (auto [unused, Ctor] : GlobalCtors) {
+    Ret.insert(Ctor);
+    for (auto &Inst : llvm::instructions(Ctor)) {
+      auto *Call = llvm::dyn_cast<llvm::CallBase>(&Inst);
+      auto *Callee = Call ? Call->getCalledFunction() : nullptr;
+      if (Callee && Callee->getName().contains("__cxx_global_var_init")) {
+        Ret.insert(Callee);
+      }
+    }
+  }
+  for (auto &Fun : Mod) {
+    Ret.insert(&Fun);
+  }
+  return Ret;
+}
+
 static llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
-collectRegisteredDtorsForModule(const llvm::Module &Mod) {
+collectRegisteredDtorsForModule(
+    llvm::Module &Mod,
+    const std::multimap<size_t, llvm::Function *> &GlobalCtors) {
   // NOLINTNEXTLINE
   llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
       RegisteredDtors, RegisteredLocalStaticDtors;
@@ -82,24 +109,27 @@ collectRegisteredDtorsForModule(const llvm::Module &Mod) {
     return CE->getOperand(0);
   };
 
-  for (auto *User : CxaAtExitFn->users()) {
-    auto *Call = llvm::dyn_cast<llvm::CallBase>(User);
-    if (!Call) {
-      continue;
-    }
+  // The order of registration determines the order of destruction
+  for (auto *Fun : collectFunctionsInStartupOrder(Mod, GlobalCtors)) {
+    for (auto &Inst : llvm::instructions(Fun)) {
+      auto *Call = llvm::dyn_cast<llvm::CallBase>(&Inst);
+      if (!Call || Call->getCalledOperand() != CxaAtExitFn) {
+        continue;
+      }
 
-    auto *DtorOp = llvm::dyn_cast_or_null<llvm::Function>(
-        getConstantBitcastArgument(Call->getArgOperand(0)));
-    auto *DtorArgOp = getConstantBitcastArgument(Call->getArgOperand(1));
+      auto *DtorOp = llvm::dyn_cast_or_null<llvm::Function>(
+          getConstantBitcastArgument(Call->getArgOperand(0)));
+      auto *DtorArgOp = getConstantBitcastArgument(Call->getArgOperand(1));
 
-    if (!DtorOp || !DtorArgOp) {
-      continue;
-    }
+      if (!DtorOp || !DtorArgOp) {
+        continue;
+      }
 
-    if (Call->getFunction()->getName().contains("__cxx_global_var_init")) {
-      RegisteredDtors.emplace_back(DtorOp, DtorArgOp);
-    } else {
-      RegisteredLocalStaticDtors.emplace_back(DtorOp, DtorArgOp);
+      if (Fun->getName().contains("__cxx_global_var_init")) {
+        RegisteredDtors.emplace_back(DtorOp, DtorArgOp);
+      } else {
+        RegisteredLocalStaticDtors.emplace_back(DtorOp, DtorArgOp);
+      }
     }
   }
 
@@ -165,12 +195,13 @@ static llvm::Function *createDtorCallerForModule(
 }
 
 [[nodiscard]] static llvm::Function *collectRegisteredDtors(
+    const std::multimap<size_t, llvm::Function *> &GlobalCtors,
     std::multimap<size_t, llvm::Function *, std::greater<>> &GlobalDtors,
     llvm::Module &Mod) {
   PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMBasedICFG",
                        "Collect Registered Dtors for Module " << Mod.getName());
 
-  auto RegisteredDtors = collectRegisteredDtorsForModule(Mod);
+  auto RegisteredDtors = collectRegisteredDtorsForModule(Mod, GlobalCtors);
 
   if (RegisteredDtors.empty()) {
     return nullptr;
@@ -181,8 +212,8 @@ static llvm::Function *createDtorCallerForModule(
                                   << " Registered Dtors");
 
   auto *RegisteredDtorCaller = createDtorCallerForModule(Mod, RegisteredDtors);
-  // auto It =
-  GlobalDtors.emplace(0, RegisteredDtorCaller);
+  // The C runtime calls the registered dtors before the static ones
+  GlobalDtors.emplace(std::numeric_limits<size_t>::max(), RegisteredDtorCaller);
   // GlobalDtorFn.try_emplace(RegisteredDtorCaller, it);
   // GlobalRegisteredDtorsCaller.try_emplace(Mod, RegisteredDtorCaller);
   return RegisteredDtorCaller;
@@ -224,7 +255,8 @@ llvm::Function *GlobalCtorsDtorsModel::buildModel(
   auto &M = *IRDB.getModule();
   auto GlobalCtors = collectGlobalCtors(M);
   auto GlobalDtors = collectGlobalDtors(M);
-  auto *RegisteredDtorCaller = collectRegisteredDtors(GlobalDtors, M);
+  auto *RegisteredDtorCaller =
+      collectRegisteredDtors(GlobalCtors, GlobalDtors, M);
   if (RegisteredDtorCaller) {
     IRDB.insertFunction(RegisteredDtorCaller);
   }
@@ -356,8 +388,8 @@ bool GlobalCtorsDtorsModel::isPhasarGenerated(
   if (F.hasName()) {
     llvm::StringRef FunctionName = F.getName();
     return llvm::StringSwitch<bool>(FunctionName)
-        .Cases(ModelName, DtorModelName, DtorsCallerName, UserEntrySelectorName,
-               true)
+        .Cases(ModelName, DtorModelName, UserEntrySelectorName, true)
+        .StartsWith(DtorsCallerName, true) // followed by the module name
         .Default(false);
   }
 
-- 
2.43.0


From 222178ec86236d42390f5bd647afd12318dd24f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:27 +0000
Subject: [PATCH 56/66] fix: the model of global constructors can be built
 again for another call graph

---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp     | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index ac1be0b..cba820c 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -18,6 +18,7 @@
 #include "llvm/ADT/SetVector.h"
 #include "llvm/IR/IRBuilder.h"
 #include "llvm/IR/InstIterator.h"
+#include "llvm/IR/Metadata.h"
 
 #include <functional>
 #include <limits>
@@ -250,9 +251,31 @@ static std::pair<llvm::Function *, bool> buildCRuntimeGlobalDtorsModel(
   return {Cleanup, true};
 }
 
+static constexpr llvm::StringLiteral EntryPointsMDName = "psr.entrypoints";
+
+static llvm::MDTuple *
+getEntryPointsMetadata(llvm::Module &M,
+                       llvm::ArrayRef<llvm::Function *> UserEntryPoints) {
+  llvm::SmallVector<llvm::Metadata *> MD;
+  for (auto *UEntry : UserEntryPoints) {
+    MD.push_back(llvm::ConstantAsMetadata::get(UEntry));
+  }
+  return llvm::MDTuple::get(M.getContext(), MD);
+}
+
 llvm::Function *GlobalCtorsDtorsModel::buildModel(
     LLVMProjectIRDB &IRDB, llvm::ArrayRef<llvm::Function *> UserEntryPoints) {
   auto &M = *IRDB.getModule();
+
+  // Inserting the same functions twice is not possible, so reuse a model that
+  // has already been built for another call graph on this IRDB
+  auto *EntryPointsMD = getEntryPointsMetadata(M, UserEntryPoints);
+  if (auto *ExistingModel = M.getFunction(ModelName);
+      ExistingModel &&
+      ExistingModel->getMetadata(EntryPointsMDName) == EntryPointsMD) {
+    return ExistingModel;
+  }
+
   auto GlobalCtors = collectGlobalCtors(M);
   auto GlobalDtors = collectGlobalDtors(M);
   auto *RegisteredDtorCaller =
@@ -278,6 +301,8 @@ llvm::Function *GlobalCtorsDtorsModel::buildModel(
                             llvm::Type::getInt8PtrTy(CTX)->getPointerTo())
           .getCallee());
 
+  GlobModel->setMetadata(EntryPointsMDName, EntryPointsMD);
+
   auto *EntryBB = llvm::BasicBlock::Create(CTX, "entry", GlobModel);
 
   llvm::IRBuilder<> IRB(EntryBB);
-- 
2.43.0


From eab78518367bfe62f8a86967f8cf167da6aa9d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 57/66] fix: annotations of chars and of variables initialised
 from a parameter

---
 lib/PhasarLLVM/Utils/Annotation.cpp | 32 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/Annotation.cpp b/lib/PhasarLLVM/Utils/Annotation.cpp
index 07b5127..803cef0 100644
--- a/lib/PhasarLLVM/Utils/Annotation.cpp
+++ b/lib/PhasarLLVM/Utils/Annotation.cpp
@@ -75,20 +75,34 @@ llvm::StringRef VarAnnotation::retrieveString(unsigned Idx) const {
 const llvm::Value *VarAnnotation::getOriginalValueOrOriginalArg(
     const llvm::Value *AnnotatedValue) {
 
+  // this may be already the original value
+  const auto *Value = AnnotatedValue;
+  const llvm::Instruction *Annotation = nullptr;
   if (const auto *BitCast =
           llvm::dyn_cast<llvm::BitCastOperator>(AnnotatedValue)) {
-    // this may be already the original value
-    const auto *Value = BitCast->getOperand(0);
-    // check if that values originates from a formal parameter
-    for (const auto &User : Value->users()) {
-      if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(User);
-          Store && llvm::isa<llvm::Argument>(Store->getValueOperand())) {
-        return Store->getValueOperand();
+    Value = BitCast->getOperand(0);
+    Annotation = llvm::dyn_cast<llvm::BitCastInst>(BitCast);
+  } else {
+    // i8* does not need a cast
+    for (const auto *User : Value->users()) {
+      const auto *Call = llvm::dyn_cast<llvm::CallBase>(User);
+      if (Call && Call->getCalledFunction() &&
+          Call->getCalledFunction()->getName() == "llvm.var.annotation") {
+        Annotation = Call;
       }
     }
-    return Value;
   }
-  return nullptr;
+  // check if that values originates from a formal parameter, i.e., whether the
+  // parameter is stored before the annotation. Later stores are assignments.
+  for (const auto &User : Value->users()) {
+    if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(User);
+        Store && llvm::isa<llvm::Argument>(Store->getValueOperand()) &&
+        Annotation && Store->getParent() == Annotation->getParent() &&
+        Store->comesBefore(Annotation)) {
+      return Store->getValueOperand();
+    }
+  }
+  return Value;
 }
 
 GlobalAnnotation::GlobalAnnotation(
-- 
2.43.0


From f7fbed3859a7f2b7ca4543736d2ddd651bf50035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 58/66] fix: taint configurations mark exactly the described
 members, calls and annotated functions

---
 .../TaintConfig/LLVMTaintConfig.cpp           | 120 +++++++++++++-----
 1 file changed, 86 insertions(+), 34 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index c7465cd..2bc28f9 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -16,6 +16,9 @@
 #include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
 #include "phasar/Utils/Logger.h"
 
+#include "llvm/ADT/STLExtras.h"
+#include "llvm/ADT/StringExtras.h"
+#include "llvm/ADT/StringSet.h"
 #include "llvm/BinaryFormat/Dwarf.h"
 #include "llvm/IR/DebugInfo.h"
 #include "llvm/IR/Function.h"
@@ -37,7 +40,9 @@ findAllFunctionDefs(const LLVMProjectIRDB &IRDB, llvm::StringRef Name) {
     if (SubProgram->isDistinct() && !SubProgram->getLinkageName().empty() &&
         (SubProgram->getName() == Name ||
          SubProgram->getLinkageName() == Name)) {
-      FnDefs.push_back(IRDB.getFunction(SubProgram->getLinkageName()));
+      if (const auto *F = IRDB.getFunction(SubProgram->getLinkageName())) {
+        FnDefs.push_back(F);
+      }
     }
   }
   DIF.reset();
@@ -60,6 +65,27 @@ findAllFunctionDefs(const LLVMProjectIRDB &IRDB, llvm::StringRef Name) {
   return FnDefs;
 }
 
+/// All calls that have Fun as callee, also with a different function type
+static llvm::SmallVector<const llvm::CallBase *>
+findAllDirectCalls(const llvm::Function &Fun) {
+  llvm::SmallVector<const llvm::CallBase *> Calls;
+  llvm::SmallVector<const llvm::Value *> WorkList = {&Fun};
+  while (!WorkList.empty()) {
+    const auto *Callee = WorkList.pop_back_val();
+    for (const auto *User : Callee->users()) {
+      if (const auto *Call = llvm::dyn_cast<llvm::CallBase>(User)) {
+        if (Call->getCalledOperand() == Callee) {
+          Calls.push_back(Call);
+        }
+      } else if (const auto *Cast = llvm::dyn_cast<llvm::ConstantExpr>(User);
+                 Cast && Cast->isCast()) {
+        WorkList.push_back(Cast);
+      }
+    }
+  }
+  return Calls;
+}
+
 void LLVMTaintConfig::addAllFunctions(const LLVMProjectIRDB &IRDB,
                                       const TaintConfigData &Config) {
   for (const auto &FunDesc : Config.Functions) {
@@ -115,12 +141,39 @@ void LLVMTaintConfig::addAllFunctions(const LLVMProjectIRDB &IRDB,
       addTaintCategory(Fun->getArg(Idx), TaintCategory::Sanitizer);
     }
     // handle a function's return value
-    for (const auto &User : Fun->users()) {
-      addTaintCategory(User, FunDesc.ReturnCat);
+    for (const auto *Call : findAllDirectCalls(*Fun)) {
+      addTaintCategory(Call, FunDesc.ReturnCat);
     }
   }
 }
 
+static bool isStructNamed(const llvm::StructType *StType,
+                          llvm::StringRef Name) {
+  if (!StType->hasName()) {
+    return false;
+  }
+  auto StName = StType->getName();
+  if (!StName.consume_front("struct.")) {
+    StName.consume_front("class.");
+  }
+  // LLVM appends numbers to make the names unique
+  if (auto [Stem, Suffix] = StName.rsplit('.');
+      !Suffix.empty() && llvm::all_of(Suffix, llvm::isDigit)) {
+    StName = Stem;
+  }
+  // The type names in the IR may be qualified, but have no template arguments
+  Name = Name.take_until([](char C) { return C == '<'; });
+  return StName.consume_back(Name) && (StName.empty() || StName.endswith("::"));
+}
+
+static bool isMemberNamed(const llvm::GetElementPtrInst *Gep,
+                          llvm::StringRef Name) {
+  // The instructions are named after the member; LLVM appends numbers to make
+  // the names unique
+  auto GepName = Gep->getName();
+  return GepName.consume_front(Name) && llvm::all_of(GepName, llvm::isDigit);
+}
+
 LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
                                  const TaintConfigData &Config) {
   // handle functions
@@ -128,29 +181,22 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
 
   // handle variables
   // scope can be a function name or a struct.
-  std::unordered_map<const llvm::Type *, const std::string> StructConfigMap;
-
-  // read all struct types from config
-  for (const auto &VarDesc : Config.Variables) {
+  llvm::StringSet<> StructNames;
+  if (!Config.Variables.empty()) {
     llvm::DebugInfoFinder DIF;
-    const auto *M = Code.getModule();
-
-    DIF.processModule(*M);
+    DIF.processModule(*Code.getModule());
     for (const auto &Ty : DIF.types()) {
-      if (Ty->getTag() == llvm::dwarf::DW_TAG_structure_type &&
-          Ty->getName().equals(VarDesc.Scope)) {
-        for (const auto &LlvmStructTy : M->getIdentifiedStructTypes()) {
-          StructConfigMap.insert(
-              std::pair<const llvm::Type *, const std::string>(LlvmStructTy,
-                                                               VarDesc.Name));
-        }
+      if (Ty->getTag() == llvm::dwarf::DW_TAG_structure_type ||
+          Ty->getTag() == llvm::dwarf::DW_TAG_class_type) {
+        StructNames.insert(Ty->getName());
       }
     }
-    DIF.reset();
   }
+
   // add corresponding Allocas or getElementPtr instructions to the taint
   // category
   for (const auto &VarDesc : Config.Variables) {
+    bool IsMember = StructNames.count(VarDesc.Scope);
     for (const auto &Fun : Code.getAllFunctions()) {
       for (const auto &I : llvm::instructions(Fun)) {
         if (const auto *DbgDeclare = llvm::dyn_cast<llvm::DbgDeclareInst>(&I)) {
@@ -160,19 +206,14 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
               LocalVar->getLine() == VarDesc.Line) {
             addTaintCategory(DbgDeclare->getAddress(), VarDesc.Cat);
           }
-        } else if (!StructConfigMap.empty()) {
+        } else if (IsMember) {
           // Ignorning line numbers for getElementPtr instructions
           if (const auto *Gep = llvm::dyn_cast<llvm::GetElementPtrInst>(&I)) {
             const auto *StType =
                 llvm::dyn_cast<llvm::StructType>(Gep->getSourceElementType());
-            if (StType && StructConfigMap.count(StType)) {
-              auto VarName = StructConfigMap.at(StType);
-              // using substr to cover the edge case in which same variable
-              // name is present as a local variable and also as a struct
-              // member variable. (Ex. JsonConfig/fun_member_02.cpp)
-              if (Gep->getName().substr(0, VarName.size()).equals(VarName)) {
-                addTaintCategory(Gep, VarDesc.Cat);
-              }
+            if (StType && isStructNamed(StType, VarDesc.Scope) &&
+                isMemberNamed(Gep, VarDesc.Name)) {
+              addTaintCategory(Gep, VarDesc.Cat);
             }
           }
         }
@@ -190,7 +231,10 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
               llvm::dyn_cast<llvm::CallBase>(VarAnnotationUser)) {
         VarAnnotation A(AnnotationCall);
         // get annotation string an remove prefix "psr."
-        auto AnnotationStr = A.getAnnotationString().substr(4);
+        auto AnnotationStr = A.getAnnotationString();
+        if (!AnnotationStr.consume_front("psr.")) {
+          continue;
+        }
         const auto *Val =
             VarAnnotation::getOriginalValueOrOriginalArg(A.getValue());
         assert(Val && "Could not retrieve original value!");
@@ -208,12 +252,17 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
           if (auto *Struct = llvm::dyn_cast<llvm::ConstantStruct>(ArrayElem)) {
             GlobalAnnotation A(Struct);
             // get annotation string an remove prefix "psr."
-            auto AnnotationStr = A.getAnnotationString().substr(4);
+            auto AnnotationStr = A.getAnnotationString();
+            if (!AnnotationStr.consume_front("psr.")) {
+              continue;
+            }
             const auto *Fun = A.getFunction();
-            for (const auto &User : Fun->users()) {
-              if (llvm::isa<llvm::CallBase>(User)) {
-                addTaintCategory(User, AnnotationStr);
-              }
+            if (!Fun) {
+              // not a function, but an annotated global variable
+              continue;
+            }
+            for (const auto *Call : findAllDirectCalls(*Fun)) {
+              addTaintCategory(Call, AnnotationStr);
             }
           }
         }
@@ -235,7 +284,10 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
               llvm::dyn_cast<llvm::CallBase>(VarAnnotationUser)) {
         VarAnnotation A(AnnotationCall);
         // get annotation string an remove prefix "psr."
-        auto AnnotationStr = A.getAnnotationString().substr(4);
+        auto AnnotationStr = A.getAnnotationString();
+        if (!AnnotationStr.consume_front("psr.")) {
+          continue;
+        }
         const auto *Val =
             VarAnnotation::getOriginalValueOrOriginalArg(A.getValue());
         assert(Val && "Could not retrieve original value!");
-- 
2.43.0


From 818433fe9b41b96dec23ae2c52e07ad8b9572dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:57 +0000
Subject: [PATCH 59/66] fix: SourceCodeInfo read back from JSON loses the
 function name

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index 01dd076..57f98c5 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -307,7 +307,7 @@ bool SourceCodeInfo::equivalentWith(const SourceCodeInfo &Other) const {
 void psr::from_json(const nlohmann::json &J, SourceCodeInfo &Info) {
   J.at("sourceCodeLine").get_to(Info.SourceCodeLine);
   J.at("sourceCodeFileName").get_to(Info.SourceCodeFilename);
-  if (auto Fn = J.find("sourceCode"); Fn != J.end()) {
+  if (auto Fn = J.find("sourceCodeFunctionName"); Fn != J.end()) {
     Fn->get_to(Info.SourceCodeFunctionName);
   }
   J.at("line").get_to(Info.Line);
-- 
2.43.0


From c8ddc041705aace80d927db7ee09cba8dae96861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:57 +0000
Subject: [PATCH 60/66] fix: no file for an instruction that is part of a
 DIArgList

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index 57f98c5..eb15db8 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -180,12 +180,11 @@ const llvm::DIFile *psr::getDIFileFromIR(const llvm::Value *V) {
       return LocVar->getFile();
     }
   } else if (const auto *I = llvm::dyn_cast<llvm::Instruction>(V)) {
-    if (I->isUsedByMetadata()) {
-      if (auto *LocVar = getDILocalVariable(I)) {
-        return LocVar->getFile();
-      }
-    } else if (I->getMetadata(llvm::LLVMContext::MD_dbg)) {
-      return I->getDebugLoc()->getFile();
+    if (auto *LocVar = getDILocalVariable(I)) {
+      return LocVar->getFile();
+    }
+    if (const auto *DILoc = getDILocation(I)) {
+      return DILoc->getFile();
     }
   }
   return nullptr;
-- 
2.43.0


From 41f482c60e2bf355a250d50cf4ede04b00956f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:11 +0000
Subject: [PATCH 61/66] fix: file names without a directory are equivalent if
 they differ in the first character

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index eb15db8..cd2f889 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -292,11 +292,9 @@ bool SourceCodeInfo::equivalentWith(const SourceCodeInfo &Other) const {
     return false;
   }
 
+  // Pos + 1 is 0, if there is no separator
   auto Pos = SourceCodeFilename.find_last_of(
       std::filesystem::path::preferred_separator);
-  if (Pos == std::string::npos) {
-    Pos = 0;
-  }
 
   return llvm::StringRef(Other.SourceCodeFilename)
       .endswith(llvm::StringRef(SourceCodeFilename)
-- 
2.43.0


From 8378aa8585104ecd5c468ccce0d2b6fa756dc6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:48 +0000
Subject: [PATCH 62/66] fix: paths through consecutive calls of the same
 function are lost

The exploded supergraph merged the node of a call-site with the start of its
callee if the call-site was reached by returning from the same basic block, so
the call-site vanished from the path and the path was rejected as an invalid
return.
---
 .../phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index df9d1ec..2937fdb 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -199,7 +199,8 @@ public:
     /// path sensitivity, so skip it
     bool MaySkipEdge = Kind == ESGEdgeKind::CallToRet && CurrNode == ZeroValue;
     for (const d_t &SuccNode : SuccNodes) {
-      saveEdge(PredId, Curr, CurrNode, Succ, SuccNode, MaySkipEdge);
+      saveEdge(PredId, Curr, CurrNode, Succ, SuccNode, MaySkipEdge,
+               isInterProc(Kind));
     }
   }
 
@@ -284,7 +285,7 @@ private:
   }
 
   void saveEdge(std::optional<size_t> PredId, n_t Curr, d_t CurrNode, n_t Succ,
-                d_t SuccNode, bool MaySkipEdge) {
+                d_t SuccNode, bool MaySkipEdge, bool IsInterProc) {
     auto [SuccVtxIt, Inserted] = FlowFactVertexMap.try_emplace(
         std::make_pair(Succ, SuccNode), Node::NoPredId);
 
@@ -324,7 +325,9 @@ private:
       return;
     }
 
-    if (PredId && NodeDataOwner[*PredId].Value == SuccNode &&
+    // Never merge the nodes at both ends of a call- or return edge, even if we
+    // came from the same basic block before: The call-site must remain visible
+    if (PredId && !IsInterProc && NodeDataOwner[*PredId].Value == SuccNode &&
         NodeDataOwner[*PredId].Source->getParent() == Succ->getParent() &&
         SuccNode != ZeroValue) {
 
-- 
2.43.0


From 53c52dd4ab8ed441dfb083b8f66ad7c5e2828dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:46 +0000
Subject: [PATCH 63/66] fix: no results right after an instruction that is
 followed by a debug intrinsic

resultsAtInLLVMSSA and resultAtInLLVMSSA looked for the results at the next
instruction, but nothing is computed at debug intrinsics.
---
 .../PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h
index 4d17597..021e303 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h
@@ -88,8 +88,10 @@ auto SolverResultsBase<Derived, N, D, L>::resultsAtInLLVMSSA(
       }
       return Ret;
     }
-    assert(Stmt->getNextNode() && "Expected to find a valid successor node!");
-    return self().Results.row(Stmt->getNextNode());
+    // There are no results at debug intrinsics
+    const auto *Next = Stmt->getNextNonDebugInstruction();
+    assert(Next && "Expected to find a valid successor node!");
+    return self().Results.row(Next);
   }();
   if (StripZero) {
     Result.erase(self().ZV);
@@ -165,8 +167,10 @@ auto SolverResultsBase<Derived, N, D, L>::resultAtInLLVMSSA(
     }
     return Ret;
   }
-  assert(Stmt->getNextNode() && "Expected to find a valid successor node!");
-  return self().Results.get(Stmt->getNextNode(), Value);
+  // There are no results at debug intrinsics
+  const auto *Next = Stmt->getNextNonDebugInstruction();
+  assert(Next && "Expected to find a valid successor node!");
+  return self().Results.get(Next, Value);
 }
 } // namespace psr::detail
 
-- 
2.43.0


From e79daab97bf7fbf39d6a7f72c77c6ea7432ab9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:57 +0000
Subject: [PATCH 64/66] fix: names with quotes or of columns are not found in a
 Hexastore

---
 lib/DB/Hexastore.cpp | 18 +++++++---
 lib/DB/Queries.cpp   | 80 ++++++++++++++++++++++----------------------
 2 files changed, 54 insertions(+), 44 deletions(-)

diff --git a/lib/DB/Hexastore.cpp b/lib/DB/Hexastore.cpp
index a912b46..aadfee3 100644
--- a/lib/DB/Hexastore.cpp
+++ b/lib/DB/Hexastore.cpp
@@ -16,6 +16,18 @@
 
 namespace psr {
 
+/// Fills the names of an edge into a query, as SQL string literals.
+static std::string compileQuery(const std::string &Query,
+                                std::array<std::string, 3> Edge) {
+  for (auto &Name : Edge) {
+    for (size_t Pos = 0; (Pos = Name.find('\'', Pos)) != std::string::npos;
+         Pos += 2) {
+      Name.insert(Pos, 1, '\'');
+    }
+  }
+  return str(boost::format(Query) % Edge[0] % Edge[1] % Edge[2]);
+}
+
 Hexastore::Hexastore(const std::string &Filename) {
   sqlite3_open(Filename.c_str(), &HSInternalDB);
   const std::string &Query = INIT;
@@ -48,8 +60,7 @@ void Hexastore::put(const std::array<std::string, 3> &Edge) {
 
 void Hexastore::doPut(const std::string &Query,
                       std::array<std::string, 3> Edge) {
-  std::string CompiledQuery =
-      str(boost::format(Query) % Edge[0] % Edge[1] % Edge[2]);
+  std::string CompiledQuery = compileQuery(Query, std::move(Edge));
   char *Err;
   sqlite3_exec(HSInternalDB, CompiledQuery.c_str(), callback, nullptr, &Err);
   if (Err != nullptr) {
@@ -91,8 +102,7 @@ std::vector<HSResult> Hexastore::get(std::array<std::string, 3> EdgeQuery,
       }
     }
   }
-  std::string CompiledQuery = str(boost::format(QueryString) % EdgeQuery[0] %
-                                  EdgeQuery[1] % EdgeQuery[2]);
+  std::string CompiledQuery = compileQuery(QueryString, std::move(EdgeQuery));
   // this lambda will collect all of our results, since it is called on every
   // row of the result set
   auto SqliteCBResultCollector = [](void *CB, int /*Argc*/, char **Argv,
diff --git a/lib/DB/Queries.cpp b/lib/DB/Queries.cpp
index 671a9db..7119776 100644
--- a/lib/DB/Queries.cpp
+++ b/lib/DB/Queries.cpp
@@ -16,86 +16,86 @@ namespace psr {
 
 const string SPOInsert =
     "insert or ignore into spo_subject (name) "
-    "values (\"%1%\");"
+    "values ('%1%');"
 
     "insert or ignore into spo_predicate (name, sid) "
-    "values (\"%2%\", (select id from spo_subject where name=\"%1%\"));"
+    "values ('%2%', (select id from spo_subject where name='%1%'));"
 
     "insert or ignore into spo_object (name, sid, pid) "
-    "values (\"%3%\", (select id from spo_subject where name=\"%1%\"), "
-    "(select id from spo_predicate where name=\"%2%\" and sid=(select id from "
-    "spo_subject where name=\"%1%\")));";
+    "values ('%3%', (select id from spo_subject where name='%1%'), "
+    "(select id from spo_predicate where name='%2%' and sid=(select id from "
+    "spo_subject where name='%1%')));";
 
 const string SOPInsert =
     "insert or ignore into sop_subject (name) "
-    "values (\"%1%\");"
+    "values ('%1%');"
 
     "insert or ignore into sop_object (name, sid) "
-    "values (\"%3%\", (select id from sop_subject where name=\"%1%\"));"
+    "values ('%3%', (select id from sop_subject where name='%1%'));"
 
     "insert or ignore into sop_predicate (name, sid, oid) "
-    "values (\"%2%\", (select id from sop_subject where name=\"%1%\"), "
-    "(select id from sop_object where name=\"%3%\" and sid=(select id from "
-    "sop_subject where name=\"%1%\")));";
+    "values ('%2%', (select id from sop_subject where name='%1%'), "
+    "(select id from sop_object where name='%3%' and sid=(select id from "
+    "sop_subject where name='%1%')));";
 
 const string PSOInsert =
     "insert or ignore into pso_predicate (name) "
-    "values (\"%2%\");"
+    "values ('%2%');"
 
     "insert or ignore into pso_subject (name, pid) "
-    "values (\"%1%\", (select id from pso_predicate where name=\"%2%\"));"
+    "values ('%1%', (select id from pso_predicate where name='%2%'));"
 
     "insert or ignore into pso_object (name, pid, sid) "
-    "values (\"%3%\", (select id from pso_predicate where name=\"%2%\"), "
-    "(select id from pso_subject where name=\"%1%\" and pid=(select id from "
-    "pso_predicate where name=\"%2%\")));";
+    "values ('%3%', (select id from pso_predicate where name='%2%'), "
+    "(select id from pso_subject where name='%1%' and pid=(select id from "
+    "pso_predicate where name='%2%')));";
 
 const string POSInsert =
     "insert or ignore into pos_predicate (name) "
-    "values (\"%2%\");"
+    "values ('%2%');"
 
     "insert or ignore into pos_object (name, pid) "
-    "values (\"%3%\", (select id from pos_predicate where name=\"%2%\"));"
+    "values ('%3%', (select id from pos_predicate where name='%2%'));"
 
     "insert or ignore into pos_subject (name, oid, pid) "
-    "values (\"%1%\", (select id from pos_object where pos_object.name=\"%3%\" "
+    "values ('%1%', (select id from pos_object where pos_object.name='%3%' "
     "and "
-    "pos_object.pid=(select id from pos_predicate where name=\"%2%\")), "
-    "(select pid from pos_object where name=\"%3%\" and pid=(select id from "
-    "pos_predicate where name=\"%2%\")));";
+    "pos_object.pid=(select id from pos_predicate where name='%2%')), "
+    "(select pid from pos_object where name='%3%' and pid=(select id from "
+    "pos_predicate where name='%2%')));";
 
 const string OSPInsert =
     "insert or ignore into osp_object (name) "
-    "values (\"%3%\");"
+    "values ('%3%');"
 
     "insert or ignore into osp_subject (name, oid) "
-    "values (\"%1%\", (select id from osp_object where name=\"%3%\"));"
+    "values ('%1%', (select id from osp_object where name='%3%'));"
 
     "insert or ignore into osp_predicate (name, sid, oid) "
-    "values (\"%2%\", (select id from osp_subject where name=\"%1%\" and "
-    "oid=(select id from osp_object where name=\"%3%\")), "
-    "(select id from osp_object where name=\"%3%\" and oid=(select id from "
-    "osp_object where name=\"%3%\")));";
+    "values ('%2%', (select id from osp_subject where name='%1%' and "
+    "oid=(select id from osp_object where name='%3%')), "
+    "(select id from osp_object where name='%3%' and oid=(select id from "
+    "osp_object where name='%3%')));";
 
 const string OPSInsert =
     "insert or ignore into ops_object (name) "
-    "values (\"%3%\");"
+    "values ('%3%');"
 
     "insert or ignore into ops_predicate (name, oid) "
-    "values (\"%2%\", (select id from ops_object where name=\"%3%\"));"
+    "values ('%2%', (select id from ops_object where name='%3%'));"
 
     "insert or ignore into ops_subject (name, pid, oid) "
-    "values (\"%1%\", (select id from ops_predicate where name=\"%2%\"), "
-    "(select id from pos_object where name=\"%3%\" and oid=(select id from "
-    "osp_object where name=\"%3%\")));";
+    "values ('%1%', (select id from ops_predicate where name='%2%'), "
+    "(select id from pos_object where name='%3%' and oid=(select id from "
+    "osp_object where name='%3%')));";
 
 const string SearchSPO =
     "select spo_subject.name, spo_predicate.name, spo_object.name from "
     "spo_subject inner join spo_predicate on spo_subject.id=spo_predicate.sid "
     "inner join spo_object on spo_predicate.id=spo_object.pid and "
     "spo_subject.id=spo_object.sid "
-    "where spo_subject.name=\"%1%\" and spo_predicate.name=\"%2%\" and "
-    "spo_object.name=\"%3%\";";
+    "where spo_subject.name='%1%' and spo_predicate.name='%2%' and "
+    "spo_object.name='%3%';";
 
 const string SearchSPX =
     "-- %3%\n"
@@ -103,7 +103,7 @@ const string SearchSPX =
     "spo_subject inner join spo_predicate on spo_subject.id=spo_predicate.sid "
     "inner join spo_object on spo_predicate.id=spo_object.pid and "
     "spo_subject.id=spo_object.sid "
-    "where spo_subject.name=\"%1%\" and spo_predicate.name=\"%2%\";";
+    "where spo_subject.name='%1%' and spo_predicate.name='%2%';";
 
 const string SearchSXO =
     "-- %2%\n"
@@ -112,7 +112,7 @@ const string SearchSXO =
     "inner join sop_object on sop_subject.id=sop_object.sid "
     "inner join sop_predicate on sop_object.id=sop_predicate.id and "
     "sop_subject.id=sop_predicate.sid "
-    "where sop_subject.name=\"%1%\" and sop_object.name=\"%3%\";";
+    "where sop_subject.name='%1%' and sop_object.name='%3%';";
 
 const string SearchXPO =
     "-- %1%\n"
@@ -121,7 +121,7 @@ const string SearchXPO =
     "inner join pos_object on pos_object.pid=pos_predicate.id "
     "inner join pos_subject on pos_subject.pid=pos_predicate.id and "
     "pos_subject.oid=pos_object.id "
-    "where pos_predicate.name=\"%2%\" and pos_object.name=\"%3%\";";
+    "where pos_predicate.name='%2%' and pos_object.name='%3%';";
 
 const string SearchSXX =
     "-- %2%%3%\n"
@@ -129,7 +129,7 @@ const string SearchSXX =
     "spo_subject inner join spo_predicate on spo_subject.id=spo_predicate.sid "
     "inner join spo_object on spo_predicate.id=spo_object.pid and "
     "spo_subject.id=spo_object.sid "
-    "where spo_subject.name=\"%1%\";";
+    "where spo_subject.name='%1%';";
 
 const string SearchXPX =
     "-- %1%%3%\n"
@@ -137,7 +137,7 @@ const string SearchXPX =
     "pso_predicate inner join pso_subject on pso_predicate.id=pso_subject.pid "
     "inner join pso_object on pso_predicate.id=pso_object.pid and "
     "pso_subject.id=pso_object.sid "
-    "where pso_predicate.name=\"%2%\";";
+    "where pso_predicate.name='%2%';";
 
 const string SearchXXO =
     "-- %1%%2%\n"
@@ -145,7 +145,7 @@ const string SearchXXO =
     "osp_object inner join osp_subject on osp_object.id=osp_subject.oid "
     "inner join osp_predicate on osp_subject.id=osp_predicate.sid and "
     "osp_object.id=osp_predicate.oid "
-    "where osp_object.name=\"%3%\";";
+    "where osp_object.name='%3%';";
 
 const string SearchXXX =
     "-- %1%%2%%3%\n"
-- 
2.43.0


From 66ace17fb7aa31da8d36e2584302c65e8a63def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:57 +0000
Subject: [PATCH 65/66] fix: queries for the predicates between two nodes of a
 Hexastore miss most

---
 lib/DB/Queries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DB/Queries.cpp b/lib/DB/Queries.cpp
index 7119776..01147a2 100644
--- a/lib/DB/Queries.cpp
+++ b/lib/DB/Queries.cpp
@@ -110,7 +110,7 @@ const string SearchSXO =
     "select sop_subject.name, sop_predicate.name, sop_object.name from "
     "sop_subject "
     "inner join sop_object on sop_subject.id=sop_object.sid "
-    "inner join sop_predicate on sop_object.id=sop_predicate.id and "
+    "inner join sop_predicate on sop_object.id=sop_predicate.oid and "
     "sop_subject.id=sop_predicate.sid "
     "where sop_subject.name='%1%' and sop_object.name='%3%';";
 
-- 
2.43.0


From 5c7075ea8bbf034375a3cdb75526fcdc260a95d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:31 +0000
Subject: [PATCH 66/66] fix: a Hexastore whose process ends within a put
 answers queries inconsistently

---
 lib/DB/Hexastore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/DB/Hexastore.cpp b/lib/DB/Hexastore.cpp
index aadfee3..05198fc 100644
--- a/lib/DB/Hexastore.cpp
+++ b/lib/DB/Hexastore.cpp
@@ -50,12 +50,15 @@ int Hexastore::callback(void * /*NotUsed*/, int Argc, char **Argv,
 }
 
 void Hexastore::put(const std::array<std::string, 3> &Edge) {
+  // all indices or none, even if the process ends meanwhile
+  doPut("begin;-- %1%%2%%3%", {});
   doPut(SPOInsert, Edge);
   doPut(SOPInsert, Edge);
   doPut(PSOInsert, Edge);
   doPut(POSInsert, Edge);
   doPut(OSPInsert, Edge);
   doPut(OPSInsert, Edge);
+  doPut("commit;-- %1%%2%%3%", {});
 }
 
 void Hexastore::doPut(const std::string &Query,
-- 
2.43.0

