From 9a24e194c465a6bf92b9bd56e9ccdbe0c3da2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 01/69] fix: removeRelationship must only ungroup the given
 feature

RemoveRelationshipFromModel searched groups transitively and dereferenced the
begin iterator of a possibly empty set. Ungrouping a feature without a group
crashed, and ungrouping one whose descendant has a group dissolved the group of
the descendant. Only look at direct children and report an error if there is no
group.
---
 include/vara/Feature/FeatureModelTransaction.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1946bc1..6bac4c1 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -463,7 +463,11 @@ public:
       return MISSING_PARENT;
     }
 
-    auto Relationships = P->getChildren<Relationship>();
+    // Only consider groups directly below P, not the ones of its descendants.
+    auto Relationships = P->getChildren<Relationship>(1);
+    if (Relationships.empty()) {
+      return ERROR;
+    }
     Relationship *R = *Relationships.begin();
 
     removeEdge(*P, *R);
-- 
2.43.0


From 847d147b5de39314938b2f0e904177753a0bf605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 02/69] fix: addRelationship must refuse unknown and already
 grouped features

Grouping the children of an unknown feature dereferenced a nullptr. Grouping a
feature that already has a group gave the grouped children a second parent edge
(or failed an assertion). Report MISSING_PARENT and ALREADY_PRESENT instead and
leave the model unchanged.
---
 include/vara/Feature/FeatureModelTransaction.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 6bac4c1..1908212 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -402,18 +402,24 @@ public:
   }
 
   Result<FTErrorCode, Relationship *> operator()(FeatureModel &FM) {
-    auto *InsertedRelationship =
-        addRelationship(FM, std::make_unique<Relationship>(Kind));
-    if (!InsertedRelationship) {
-      return ERROR;
-    }
-
     auto *P = std::visit(
         Overloaded{
             [&FM](const std::string &Name) { return FM.getFeature(Name); },
             [](Feature *Ptr) { return Ptr; },
         },
         Parent);
+    if (!P) {
+      return MISSING_PARENT;
+    }
+    if (!P->getChildren<Relationship>(1).empty()) {
+      return ALREADY_PRESENT;
+    }
+
+    auto *InsertedRelationship =
+        addRelationship(FM, std::make_unique<Relationship>(Kind));
+    if (!InsertedRelationship) {
+      return ERROR;
+    }
 
     setParent(*InsertedRelationship, *P);
     addEdge(*P, *InsertedRelationship);
-- 
2.43.0


From 37c6c2a2f05c18c721836c5da23746999db5e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 03/69] fix: removeFeature must refuse to remove the root

Removing the root dereferenced its (missing) parent, after a recursive removal
had already deleted every other feature. Report an error before anything is
changed.
---
 include/vara/Feature/FeatureModelTransaction.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1908212..c85ec20 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -353,6 +353,12 @@ public:
     if (!F) {
       return MISSING_FEATURE;
     }
+    if (!Recursive && !F->getChildren<Feature>().empty()) {
+      return NON_LEAF_NODE;
+    }
+    if (!F->getParent()) {
+      return ERROR; // the root has to stay
+    }
 
     if (Recursive) {
       for (auto *C : F->getChildren<Feature>()) {
@@ -364,13 +370,8 @@ public:
         removeEdge(*F, *R);
         removeRelationship(FM, R);
       }
-    } else {
-      if (!F->getChildren<Feature>().empty()) {
-        return NON_LEAF_NODE;
-      }
-      if (!F->getChildren<Relationship>().empty()) {
-        removeRelationship(FM, *F->getChildren<Relationship>().begin());
-      }
+    } else if (!F->getChildren<Relationship>().empty()) {
+      removeRelationship(FM, *F->getChildren<Relationship>().begin());
     }
 
     removeEdge(*F->getParent(), *F);
-- 
2.43.0


From ad64a003c595b9a1e5a3a4a4d1e99e1dc32f9795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 04/69] fix: addChild must not create cycles

Only the edge from a node to itself was refused. Moving a feature (or the root)
below one of its own descendants was accepted and detached a cycle from the
tree, which the consistency check does not notice and which hangs later
traversals to the root.
---
 include/vara/Feature/FeatureModelTransaction.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index c85ec20..c7b37c2 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -794,8 +794,11 @@ public:
       return MISSING_PARENT;
     }
 
-    if (C == P) {
-      return RECURSIVE_EDGE;
+    // A node must not become a descendant of itself.
+    for (auto *A = P; A; A = A->getParent()) {
+      if (C == A) {
+        return RECURSIVE_EDGE;
+      }
     }
 
     if (C->getParent()) {
-- 
2.43.0


From 21f13f275d45642649c109c54403238af5ee18c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 05/69] fix: editing the locations of an unknown feature must
 not crash

AddLocationToFeature and RemoveLocationFromFeature dereferenced the result of
the lookup without a check. Report MISSING_FEATURE.
---
 .../vara/Feature/FeatureModelTransaction.h    | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index c7b37c2..a51df1b 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -512,14 +512,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    addLocation(*std::visit(Overloaded{
-                                [&FM](const std::string &Name) {
-                                  return FM.getFeature(Name);
-                                },
-                                [](Feature *Ptr) { return Ptr; },
-                            },
-                            F),
-                FSR);
+    auto *Target = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!Target) {
+      return MISSING_FEATURE;
+    }
+    addLocation(*Target, FSR);
     return Ok();
   }
 
@@ -547,14 +549,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    removeLocation(*std::visit(Overloaded{
-                                   [&FM](const std::string &Name) {
-                                     return FM.getFeature(Name);
-                                   },
-                                   [](Feature *Ptr) { return Ptr; },
-                               },
-                               F),
-                   FSR);
+    auto *Target = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!Target) {
+      return MISSING_FEATURE;
+    }
+    removeLocation(*Target, FSR);
     return Ok();
   }
 
-- 
2.43.0


From 228e7bac6e41c8507e75fad7c98e296b2d7671fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 06/69] fix: copy transactions must not crash on unknown
 feature names

Every edit by name in copy mode dereferenced the looked up feature, although the
modifications themselves handle an unknown feature. Pass the result of the
lookup on.
---
 .../vara/Feature/FeatureModelTransaction.h    | 54 ++++++-------------
 1 file changed, 16 insertions(+), 38 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index a51df1b..8e50505 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -867,14 +867,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveFeatureFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        Recursive)(*FM);
+        translateFeature(F), Recursive)(*FM);
   }
 
   Result<FTErrorCode, Relationship *>
@@ -885,54 +878,28 @@ protected:
     }
 
     return FeatureModelModification::makeModification<AddRelationshipToModel>(
-        Kind, translateFeature(*std::visit(Overloaded{
-                                               [this](const std::string &Name) {
-                                                 return FM->getFeature(Name);
-                                               },
-                                               [](Feature *Ptr) { return Ptr; },
-                                           },
-                                           Parent)))(*FM);
+        Kind, translateFeature(Parent))(*FM);
   }
 
   void removeRelationshipImpl(const FeatureVariantTy &F) {
     assert(FM && "Feature model is null.");
 
     FeatureModelModification::makeModification<RemoveRelationshipFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)))(*FM);
+        translateFeature(F))(*FM);
   }
 
   void addLocationImpl(const FeatureVariantTy &F, FeatureSourceRange FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<AddLocationToFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        std::move(FSR))(*FM);
+        translateFeature(F), std::move(FSR))(*FM);
   }
 
   void removeLocationImpl(const FeatureVariantTy &F, FeatureSourceRange &FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveLocationFromFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        FSR)(*FM);
+        translateFeature(F), FSR)(*FM);
   }
 
   template <class ConstraintTy>
@@ -986,6 +953,17 @@ private:
     return FM->getFeature(F.getName());
   }
 
+  /// Find the corresponding Feature in our copied FeatureModel, nullptr if
+  /// there is none.
+  [[nodiscard]] Feature *translateFeature(const FeatureVariantTy &F) {
+    return std::visit(
+        Overloaded{
+            [this](const std::string &Name) { return FM->getFeature(Name); },
+            [this](Feature *Ptr) { return Ptr ? translateFeature(*Ptr) : Ptr; },
+        },
+        F);
+  }
+
   std::unique_ptr<FeatureModel> FM;
 };
 
-- 
2.43.0


From e2d43986954499c4f9dcfaf469bd612332bad77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 07/69] fix: addChild has to have an effect in copy
 transactions

The copy mode created the modification but never executed it, so the edit was
silently dropped. Execute it on the nodes of the copy.
---
 .../vara/Feature/FeatureModelTransaction.h    | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 8e50505..1c897ba 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -942,9 +942,12 @@ protected:
         *FM);
   }
 
-  static void addChildImpl(const FeatureTreeNodeVariantTy &Parent,
-                           const FeatureTreeNodeVariantTy &Child) {
-    FeatureModelModification::makeModification<AddChild>(Parent, Child);
+  void addChildImpl(const FeatureTreeNodeVariantTy &Parent,
+                    const FeatureTreeNodeVariantTy &Child) {
+    assert(FM && "FeatureModel is null.");
+
+    FeatureModelModification::makeModification<AddChild>(
+        translateNode(Parent), translateNode(Child))(*FM);
   }
 
 private:
@@ -964,6 +967,28 @@ private:
         F);
   }
 
+  /// Find the corresponding node in our copied FeatureModel, nullptr if there is
+  /// none.
+  [[nodiscard]] FeatureTreeNode *
+  translateNode(const FeatureTreeNodeVariantTy &N) {
+    if (const auto *Name = std::get_if<std::string>(&N)) {
+      return FM->getFeature(*Name);
+    }
+    auto *Ptr = std::get<FeatureTreeNode *>(N);
+    if (auto *F = llvm::dyn_cast_or_null<Feature>(Ptr)) {
+      return translateFeature(*F);
+    }
+    // A group is identified by the feature it belongs to.
+    if (auto *P = llvm::dyn_cast_or_null<Feature>(Ptr ? Ptr->getParent()
+                                                      : nullptr)) {
+      if (auto *F = translateFeature(*P)) {
+        auto Groups = F->getChildren<Relationship>(1);
+        return Groups.empty() ? nullptr : *Groups.begin();
+      }
+    }
+    return nullptr;
+  }
+
   std::unique_ptr<FeatureModel> FM;
 };
 
-- 
2.43.0


From 6441c23e81391cc070aa6f49ee68ecabc0a993c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 08/69] fix: addConstraint must not leave a refused constraint
 in the model

A constraint over an unknown feature was reported as MISSING_FEATURE but stayed
in the model, with some of its features bound to the model and the others still
dangling. Check all features first.
---
 include/vara/Feature/FeatureModelTransaction.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1c897ba..92453ec 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -587,6 +587,11 @@ public:
   }
 
   Result<FTErrorCode, Constraint *> operator()(FeatureModel &FM) {
+    // Check all features before anything is changed.
+    auto Check = CheckFeaturesVisitor(&FM);
+    if (!(**NewConstraint)->accept(Check)) {
+      return MISSING_FEATURE;
+    }
     auto *InsertedConstraint = addConstraint(FM, std::move(NewConstraint));
     if (!InsertedConstraint) {
       return ERROR;
@@ -599,6 +604,19 @@ public:
   }
 
 private:
+  class CheckFeaturesVisitor : public ConstraintVisitor {
+
+  public:
+    CheckFeaturesVisitor(FeatureModel *FM) : FM(FM) {}
+
+    bool visit(PrimaryFeatureConstraint *C) override {
+      return FM->getFeature(C->getFeature()->getName());
+    };
+
+  private:
+    FeatureModel *FM;
+  };
+
   class AddConstraintToModelVisitor : public ConstraintVisitor {
 
   public:
-- 
2.43.0


From 1ca2084b8b8f0d6bc6efb0f6aa3a0c739d8d5fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 09/69] fix: source ranges with different revision ranges are
 not equal

operator== ignored the revision range, so removing, updating or merging the
location of one revision hit the location of another one.
---
 include/vara/Feature/FeatureSourceRange.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureSourceRange.h b/include/vara/Feature/FeatureSourceRange.h
index 8ef57b0..f164f63 100644
--- a/include/vara/Feature/FeatureSourceRange.h
+++ b/include/vara/Feature/FeatureSourceRange.h
@@ -44,6 +44,14 @@ public:
                                  : llvm::StringRef();
     }
 
+    inline bool operator==(const FeatureRevisionRange &Other) const {
+      return Introduced == Other.Introduced && Removed == Other.Removed;
+    }
+
+    inline bool operator!=(const FeatureRevisionRange &Other) const {
+      return !(*this == Other);
+    }
+
   private:
     std::string Introduced;
     std::optional<std::string> Removed;
@@ -246,7 +254,8 @@ public:
   inline bool operator==(const FeatureSourceRange &Other) const {
     return CategoryKind == Other.CategoryKind and Path == Other.Path and
            Start == Other.Start and End == Other.End and
-           MemberOffset == Other.MemberOffset;
+           MemberOffset == Other.MemberOffset and
+           RevisionRange == Other.RevisionRange;
   }
 
   inline bool operator!=(const FeatureSourceRange &Other) const {
-- 
2.43.0


From d551cb38f23e4d7fb5bc2338656298a11a3a0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 10/69] fix: removing an absent location must not erase past
 the end

Feature::removeLocation passed end() to vector::erase if the feature does not
have the given location, which is undefined behavior.
---
 include/vara/Feature/Feature.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index d44e9ec..5e7a68a 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -99,7 +99,8 @@ public:
 
   std::vector<FeatureSourceRange>::iterator
   removeLocation(const FeatureSourceRange &Fsr) {
-    return Locations.erase(std::find(Locations.begin(), Locations.end(), Fsr));
+    auto Loc = std::find(Locations.begin(), Locations.end(), Fsr);
+    return Loc == Locations.end() ? Loc : Locations.erase(Loc);
   }
 
   bool updateLocation(const FeatureSourceRange &OldFsr,
-- 
2.43.0


From 61be3f2eb357ab10bffaf8cb0045899e18efa8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 11/69] fix: removing a feature must not leave dangling
 constraints

Constraints kept a pointer to a feature that was removed from the model, so
printing, cloning, writing or solving the model afterwards used freed memory.
Delete the constraints a removed feature takes part in.
---
 include/vara/Feature/FeatureModel.h |  5 ++++-
 lib/Feature/FeatureModel.cpp        | 25 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index 3928e59..ef59d01 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -366,9 +366,12 @@ private:
   /// \returns ptr to inserted \a Feature
   Feature *addFeature(std::unique_ptr<Feature> Feature);
 
-  /// Delete a \a Feature.
+  /// Delete a \a Feature, and the constraints it takes part in.
   void removeFeature(Feature &Feature);
 
+  /// Delete all constraints which mention the given \a Feature.
+  void removeConstraintsOf(const Feature &F);
+
   RootFeature *setRoot(RootFeature &NewRoot);
 
   using ordered_feature_iterator = DFSIterator;
diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 56a1040..72a8dd5 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -2,10 +2,12 @@
 #include "vara/Feature/FeatureModelBuilder.h"
 #include "vara/Feature/FeatureModelParser.h"
 
+#include "llvm/ADT/STLExtras.h"
 #include "llvm/Support/Casting.h"
 #include "llvm/Support/MemoryBuffer.h"
 
 #include <algorithm>
+#include <set>
 
 //===----------------------------------------------------------------------===//
 //                          FeatureModel
@@ -34,9 +36,32 @@ void FeatureModel::removeFeature(Feature &F) {
   if (&F == Root) {
     Root = nullptr;
   }
+  removeConstraintsOf(F);
   Features.erase(F.getName());
 }
 
+void FeatureModel::removeConstraintsOf(const Feature &F) {
+  std::set<Constraint *> Removed;
+  for (auto *C : F.constraints()) {
+    Removed.insert(C->getRoot());
+  }
+  if (Removed.empty()) {
+    return;
+  }
+  auto IsRemoved = [&Removed](Constraint *C) {
+    return Removed.count(C->getRoot()) > 0;
+  };
+  for (const auto &KV : Features) {
+    llvm::erase_if(KV.getValue()->Constraints, IsRemoved);
+    llvm::erase_if(KV.getValue()->Implications, IsRemoved);
+    llvm::erase_if(KV.getValue()->Excludes, IsRemoved);
+  }
+  auto HoldsRemoved = [&IsRemoved](const auto &C) { return IsRemoved(**C); };
+  llvm::erase_if(BooleanConstraints, HoldsRemoved);
+  llvm::erase_if(NonBooleanConstraints, HoldsRemoved);
+  llvm::erase_if(MixedConstraints, HoldsRemoved);
+}
+
 RootFeature *FeatureModel::setRoot(RootFeature &NewRoot) {
   return Root = &NewRoot;
 }
-- 
2.43.0


From 6fe7fdd0b873890889132ddc1201ffd6cd77e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 12/69] fix: merging models with irreconcilable roots must
 fail, not crash

If the root of the second model is not part of the first one, the merged model
would have two roots and the commit reports that it was aborted. The result was
dereferenced without a check. Return nullptr as documented.
---
 lib/Feature/FeatureModelTransaction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 3e005f5..f7b8b15 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -166,7 +166,11 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     Trans.abort();
     return nullptr;
   }
-  return *Trans.commit();
+  auto Merged = Trans.commit();
+  if (!Merged) {
+    return nullptr;
+  }
+  return Merged.extractValue();
 }
 
 [[nodiscard]] bool mergeSubtree(FeatureModelCopyTransaction &Trans,
-- 
2.43.0


From d171eaf42296fb44ee6422f2d5eadba83603b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 13/69] fix: merged features keep their output string and step
 function

Features that only the second model has were copied without these two
attributes.
---
 lib/Feature/FeatureModelTransaction.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index f7b8b15..7b46d84 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -212,13 +212,18 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     return std::make_unique<BinaryFeature>(
         F.getName().str(), F.isOptional(),
         std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                        F.getLocationsEnd()));
+                                        F.getLocationsEnd()),
+        F.getOutputString().str());
   case Feature::FeatureKind::FK_NUMERIC:
     if (auto *NF = llvm::dyn_cast<NumericFeature>(&F)) {
       return std::make_unique<NumericFeature>(
           F.getName().str(), NF->getValues(), F.isOptional(),
           std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                          F.getLocationsEnd()));
+                                          F.getLocationsEnd()),
+          F.getOutputString().str(),
+          NF->getStepFunction()
+              ? std::make_unique<StepFunction>(*NF->getStepFunction())
+              : nullptr);
     }
     break;
   case Feature::FeatureKind::FK_ROOT:
-- 
2.43.0


From eaec3b36ed420626b451b40c8c4f3941997280c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 14/69] fix: bulk removal must consider all transitive children

canBeDeletedRecursively only intersected the direct children, through
std::set_intersection on an unsorted range. A feature and a deeper listed
descendant could be scheduled for the same round, in which the removal of the
descendant fails depending on the order of the list, aborting the remaining
removals.
---
 lib/Feature/FeatureModelTransaction.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 7b46d84..689d184 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -75,11 +75,13 @@ canBeDeletedRecursively(FeatureModel &FM, detail::FeatureVariantTy &FV,
   }
 
   std::set<FeatureTreeNode *> Intersection;
-  auto AllChildrenInSubtree = ActualFeature->getChildren();
-  std::set_intersection(AllChildrenInSubtree.begin(),
-                        AllChildrenInSubtree.end(), OtherFeatures.begin(),
-                        OtherFeatures.end(),
-                        std::inserter(Intersection, Intersection.begin()));
+  for (auto *Other : OtherFeatures) {
+    for (auto *P = Other->getParent(); P; P = P->getParent()) {
+      if (P == ActualFeature) {
+        Intersection.insert(Other);
+      }
+    }
+  }
   // if the children are not matching the other features, the intersection is
   // empty and we are good to go for deletion
   return std::optional<bool>{Intersection.begin() == Intersection.end()};
-- 
2.43.0


From d49c3c7888608dce4ddde00b712d974b986466bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 15/69] fix: bulk removal must return the root and tolerate
 repeated entries

The root counts as deletable if it is a leaf or nothing below it is listed, and
an entry listed twice was removed twice. In both cases the transaction fails,
the remaining removals are dropped, and the features concerned were neither
removed nor returned.
---
 lib/Feature/FeatureModelTransaction.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 689d184..4fe0a98 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -112,6 +112,9 @@ std::vector<detail::FeatureVariantTy> removeFeatures(
   auto DeleteIt = std::partition(
       Begin, End,
       [&FM, Recursive, &OtherFeatures](detail::FeatureVariantTy &FV) {
+        if (FM.getRoot() == getActualFeature(FM, FV)) {
+          return false; // the root can never be deleted
+        }
         if (fvIsLeaf(FM, FV).value_or(false)) {
           return true;
         }
@@ -129,9 +132,12 @@ std::vector<detail::FeatureVariantTy> removeFeatures(
 
   // perform actual removal of deletable features
   auto Trans = FeatureModelModifyTransaction::openTransaction(FM);
+  std::set<Feature *> Scheduled;
   auto FeatureIt = Begin;
   while (FeatureIt != DeleteIt) {
-    Trans.removeFeature(*FeatureIt, Recursive);
+    if (Scheduled.insert(getActualFeature(FM, *FeatureIt)).second) {
+      Trans.removeFeature(*FeatureIt, Recursive);
+    }
     FeatureIt = std::next(FeatureIt);
   }
   Trans.commit();
-- 
2.43.0


From f997ecc6c2e2fdb488149d84a79aaaab1e404178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 16/69] fix: bulk removal must not treat an empty group as a
 child

A feature whose grouped children are all gone can be removed, but was returned
as not removable in non-recursive mode because its group node remains.
---
 lib/Feature/FeatureModelTransaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 4fe0a98..6052727 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -55,7 +55,7 @@ std::optional<bool> fvIsLeaf(FeatureModel &FM, detail::FeatureVariantTy &FV) {
   if (ActualFeature == nullptr) {
     return std::nullopt;
   }
-  return std::optional<bool>{ActualFeature->isLeaf()};
+  return std::optional<bool>{ActualFeature->getChildren<Feature>().empty()};
 }
 
 /// Checks if in recursive mode the provided Feature can be deleted or not.
-- 
2.43.0


From ceca119ccc9bc8f14a2b5579cd53ad092d5fa95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 17/69] fix: the builder must set the root before it adds
 features

The root was replaced in order with the declared features, so a feature that has
the name of the builder's default root was refused or accepted depending on the
order of declarations. Cloning a model with another root and a feature called
"root" failed an assertion.
---
 include/vara/Feature/FeatureModelBuilder.h | 6 +++++-
 lib/Feature/FeatureModelBuilder.cpp        | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelBuilder.h b/include/vara/Feature/FeatureModelBuilder.h
index 63fe0e9..6eaa1f7 100644
--- a/include/vara/Feature/FeatureModelBuilder.h
+++ b/include/vara/Feature/FeatureModelBuilder.h
@@ -17,6 +17,7 @@ class FeatureModelBuilder {
 public:
   FeatureModelBuilder()
       : FM(std::make_unique<FeatureModel>()),
+        RootBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         FeatureBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         ModelBuilder(FeatureModelModifyTransaction::openTransaction(*FM)),
         RelationBuilder(FeatureModelModifyTransaction::openTransaction(*FM)) {}
@@ -27,6 +28,7 @@ public:
   FeatureModelBuilder &operator=(FeatureModelBuilder &&) = default;
 
   ~FeatureModelBuilder() {
+    RootBuilder.abort();
     FeatureBuilder.abort();
     ModelBuilder.abort();
     RelationBuilder.abort();
@@ -92,7 +94,7 @@ public:
   }
 
   FeatureModelBuilder *makeRoot(const std::string &Name) {
-    FeatureBuilder.setRoot(std::make_unique<RootFeature>(Name));
+    RootBuilder.setRoot(std::make_unique<RootFeature>(Name));
     return this;
   }
 
@@ -104,6 +106,8 @@ public:
 private:
   std::unique_ptr<FeatureModel> FM;
   llvm::StringMap<std::string> Parents;
+  // Modifications to set the root.
+  FeatureModelTransaction<detail::ModifyTransactionMode> RootBuilder;
   // Modifications to initialize features as children of root.
   FeatureModelTransaction<detail::ModifyTransactionMode> FeatureBuilder;
   // Modifications to build tree structure and set FM meta information.
diff --git a/lib/Feature/FeatureModelBuilder.cpp b/lib/Feature/FeatureModelBuilder.cpp
index fd8a96a..32f7dec 100644
--- a/lib/Feature/FeatureModelBuilder.cpp
+++ b/lib/Feature/FeatureModelBuilder.cpp
@@ -9,6 +9,14 @@ namespace vara::feature {
 std::unique_ptr<FeatureModel> FeatureModelBuilder::buildFeatureModel() {
   assert(FM->getRoot() && "FeatureModel has no root.");
 
+  if (Result E = RootBuilder.commit(); !E) {
+    llvm::errs() << "Building root failed with error: " << E << '\n';
+    FeatureBuilder.abort();
+    ModelBuilder.abort();
+    RelationBuilder.abort();
+    return nullptr;
+  }
+
   if (Result E = FeatureBuilder.commit(); !E) {
     llvm::errs() << "Building features failed with error: " << E << '\n';
     ModelBuilder.abort();
-- 
2.43.0


From c1c078b3e7e3f65466e23753fddda025f41b0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 18/69] fix: clone must preserve all attributes and the
 grouping of features

Clones lost the output strings, step functions and the locations of the root,
and children that are not part of the group of their parent were moved into it.
Copy transactions and merging are based on clones.
---
 lib/Feature/FeatureModel.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 72a8dd5..fdb7ec6 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -87,14 +87,18 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
     case Feature::FeatureKind::FK_BINARY:
       if (auto *F = llvm::dyn_cast<BinaryFeature>(KV.getValue().get()); F) {
         FMB.makeFeature<BinaryFeature>(F->getName().str(), F->isOptional(),
-                                       std::move(SourceRanges));
+                                       std::move(SourceRanges),
+                                       F->getOutputString().str());
       }
       break;
     case Feature::FeatureKind::FK_NUMERIC:
       if (auto *F = llvm::dyn_cast<NumericFeature>(KV.getValue().get()); F) {
-        FMB.makeFeature<NumericFeature>(F->getName().str(), F->getValues(),
-                                        F->isOptional(),
-                                        std::move(SourceRanges));
+        FMB.makeFeature<NumericFeature>(
+            F->getName().str(), F->getValues(), F->isOptional(),
+            std::move(SourceRanges), F->getOutputString().str(),
+            F->getStepFunction()
+                ? std::make_unique<StepFunction>(*F->getStepFunction())
+                : nullptr);
       }
       break;
     }
@@ -134,6 +138,25 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
   //  valid.
   auto FM = FMB.buildFeatureModel();
   assert(FM);
+
+  for (const auto &KV : this->Features) {
+    auto *F = KV.getValue().get();
+    auto *Copy = FM->getFeature(F->getName());
+    // Only binary and numeric features take their locations when created.
+    if (!llvm::isa<BinaryFeature>(F) && !llvm::isa<NumericFeature>(F)) {
+      for (const auto &Location : F->getLocations()) {
+        Copy->addLocation(Location);
+      }
+    }
+    // The builder moved all children of a grouped feature into its group.
+    if (llvm::isa_and_nonnull<Feature>(F->getParent()) &&
+        llvm::isa<Relationship>(Copy->getParent())) {
+      auto *Parent = Copy->getParentFeature();
+      Copy->getParent()->removeEdge(Copy);
+      Parent->addEdge(Copy);
+      Copy->setParent(Parent);
+    }
+  }
   return FM;
 }
 
-- 
2.43.0


From 25490239fc827b7e60dc2b85d41d963e70b3abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 19/69] fix: refuse a second root and parents that are not part
 of the copy

Adding a RootFeature was only noticed by the consistency check at commit, which
leaves an in-place edited model with two roots behind. In copy mode, a parent
that was removed from the copy silently became the root.
---
 include/vara/Feature/FeatureModelTransaction.h | 9 ++++++++-
 lib/Feature/FeatureModelTransaction.cpp        | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 92453ec..b2c0b37 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -305,6 +305,9 @@ public:
   }
 
   Result<FTErrorCode, Feature *> operator()(FeatureModel &FM) {
+    if (FM.getRoot() && llvm::isa<RootFeature>(*NewFeature)) {
+      return INCONSISTENT; // there can only be one root
+    }
     auto *InsertedFeature = addFeature(FM, std::move(NewFeature));
     if (!InsertedFeature) {
       return ALREADY_PRESENT;
@@ -873,8 +876,12 @@ protected:
     if (Parent) {
       // To correctly add a parent, we need to translate it to a Feature in
       // our copied FeatureModel
+      auto *CopiedParent = translateFeature(*Parent);
+      if (!CopiedParent) {
+        return MISSING_PARENT;
+      }
       return FeatureModelModification::makeModification<AddFeatureToModel>(
-          std::move(NewFeature), translateFeature(*Parent))(*FM);
+          std::move(NewFeature), CopiedParent)(*FM);
     }
 
     return FeatureModelModification::makeModification<AddFeatureToModel>(
diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 6052727..748b50a 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -202,7 +202,9 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     if (!Copy) {
       return false;
     }
-    Trans.addFeature(std::move(Copy), F.getParentFeature());
+    if (!Trans.addFeature(std::move(Copy), F.getParentFeature())) {
+      return false;
+    }
   }
 
   // copy children if missing
-- 
2.43.0


From f1e990b7988b98d4d151f8e99af9930819b31743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 20/69] fix: building a constraint twice must not use
 moved-from operands

A second call of ConstraintBuilder::build() returned a constraint over a feature
that was already moved into the first one, i.e., a nullptr.
---
 include/vara/Feature/ConstraintBuilder.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/ConstraintBuilder.h b/include/vara/Feature/ConstraintBuilder.h
index b21a249..043aaa2 100644
--- a/include/vara/Feature/ConstraintBuilder.h
+++ b/include/vara/Feature/ConstraintBuilder.h
@@ -132,7 +132,11 @@ public:
       llvm::errs() << "Syntax error: Incomplete constraint.\n";
       return nullptr;
     }
-    return Root->build();
+    auto Result = Root->build();
+    // the operands were moved into the result, start over
+    Root.reset();
+    Head = &Root;
+    return Result;
   }
 
   /// Parenthesizes intermediate constraint.
-- 
2.43.0


From 15150f8688c80e56ce7f9284167b80fbeb8ae851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 21/69] fix: lexing an empty constraint must not access an
 empty token list

ConstraintParser("") and options with an empty constraint text ran into
undefined behavior instead of reporting a syntax error.
---
 include/vara/Feature/ConstraintParser.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 57f8aa9..34f15ef 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -129,9 +129,11 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
-        Kind != ConstraintToken::ConstraintTokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
+         TokenList.back().getKind() !=
+             ConstraintToken::ConstraintTokenKind::ERROR)) {
       TokenList.push_back(
           ConstraintToken(ConstraintToken::ConstraintTokenKind::END_OF_FILE));
     }
-- 
2.43.0


From f819af201812486395db2cc6a5bd8001a114dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 22/69] fix: operators after a number are not part of the
 number

The lexer swallowed every 'e', '+', and '-' after a digit, so '1+2' was read as
a single number, failed to parse as such, and became the maximal integer.
---
 include/vara/Feature/ConstraintParser.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 34f15ef..3eebced 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -246,9 +246,21 @@ private:
   }
 
   static ResultTy munchNumber(const llvm::StringRef &Str) {
-    auto Munch = Str.take_while([](auto C) {
-      return llvm::isDigit(C) || C == 'e' || C == 'E' || C == '+' || C == '-';
-    });
+    auto IsDigit = [](auto C) { return llvm::isDigit(C); };
+    auto Munch = Str.take_while(IsDigit);
+
+    // The exponent of a number in scientific notation consists of at least one
+    // digit. Otherwise, what follows is not part of the number.
+    if (auto Rest = Str.drop_front(Munch.size());
+        legacy::starts_with(Rest, "e") || legacy::starts_with(Rest, "E")) {
+      Rest = Rest.drop_front();
+      if (legacy::starts_with(Rest, "+") || legacy::starts_with(Rest, "-")) {
+        Rest = Rest.drop_front();
+      }
+      if (auto Exponent = Rest.take_while(IsDigit); !Exponent.empty()) {
+        Munch = Str.take_front(Exponent.end() - Str.begin());
+      }
+    }
 
     return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NUMBER,
                             Munch.lower()),
-- 
2.43.0


From aa8d056558e2f6ed783195c774460a08a497dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 23/69] fix: read the division and xor operators that
 constraints are printed with

Division and xor constraints are printed as '/' and '^', but these characters
were lexical errors. Models with such constraints could be written but the
written constraint was lost, or the model refused, when it was read again. Use
the precedences of the constraint builder.
---
 include/vara/Feature/ConstraintParser.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 3eebced..efd8371 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -35,6 +35,7 @@ public:
 
   enum class ConstraintTokenKind {
     AND,
+    DIVIDE,
     END_OF_FILE,
     EQUAL,
     EQUIVALENT,
@@ -55,7 +56,8 @@ public:
     PLUS,
     R_PAR,
     STAR,
-    WHITESPACE
+    WHITESPACE,
+    XOR
   };
 
   ConstraintToken(ConstraintTokenKind Kind) : Kind(Kind) {}
@@ -71,6 +73,7 @@ public:
 
   [[nodiscard]] PrecedenceTy calcPrecedence() const {
     switch (Kind) {
+    case ConstraintTokenKind::DIVIDE:
     case ConstraintTokenKind::STAR:
       return 1;
     case ConstraintTokenKind::PLUS:
@@ -87,6 +90,7 @@ public:
     case ConstraintTokenKind::AND:
       return 5;
     case ConstraintTokenKind::OR:
+    case ConstraintTokenKind::XOR:
       return 6;
     case ConstraintTokenKind::IMPLIES:
       return 7;
@@ -174,6 +178,10 @@ private:
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NEG), 1};
     case '*':
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::STAR), 1};
+    case '/':
+      return {ConstraintToken(ConstraintToken::ConstraintTokenKind::DIVIDE), 1};
+    case '^':
+      return {ConstraintToken(ConstraintToken::ConstraintTokenKind::XOR), 1};
     case '&':
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::AND), 1};
     case '|':
@@ -365,6 +373,7 @@ private:
       case ConstraintToken::ConstraintTokenKind::END_OF_FILE:
         return LHS;
       case ConstraintToken::ConstraintTokenKind::AND:
+      case ConstraintToken::ConstraintTokenKind::DIVIDE:
       case ConstraintToken::ConstraintTokenKind::EQUAL:
       case ConstraintToken::ConstraintTokenKind::EQUIVALENT:
       case ConstraintToken::ConstraintTokenKind::GREATER:
@@ -376,7 +385,8 @@ private:
       case ConstraintToken::ConstraintTokenKind::NOT_EQUAL:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
-      case ConstraintToken::ConstraintTokenKind::STAR: {
+      case ConstraintToken::ConstraintTokenKind::STAR:
+      case ConstraintToken::ConstraintTokenKind::XOR: {
         auto NextPrecedence = peek().calcPrecedence();
         if (NextPrecedence >= Precedence) {
           return LHS;
@@ -453,6 +463,10 @@ private:
         consume(ConstraintToken::ConstraintTokenKind::STAR);
         return createConstraint<MultiplicationConstraint>(
             std::move(LHS), NestingLevel + 1, Precedence);
+      case ConstraintToken::ConstraintTokenKind::DIVIDE:
+        consume(ConstraintToken::ConstraintTokenKind::DIVIDE);
+        return createConstraint<DivisionConstraint>(
+            std::move(LHS), NestingLevel + 1, Precedence);
       case ConstraintToken::ConstraintTokenKind::PLUS:
         consume(ConstraintToken::ConstraintTokenKind::PLUS);
         return createConstraint<AdditionConstraint>(
@@ -477,6 +491,10 @@ private:
         consume(ConstraintToken::ConstraintTokenKind::OR);
         return createConstraint<OrConstraint>(std::move(LHS), NestingLevel + 1,
                                               Precedence);
+      case ConstraintToken::ConstraintTokenKind::XOR:
+        consume(ConstraintToken::ConstraintTokenKind::XOR);
+        return createConstraint<XorConstraint>(std::move(LHS), NestingLevel + 1,
+                                               Precedence);
       case ConstraintToken::ConstraintTokenKind::IMPLIES:
         consume(ConstraintToken::ConstraintTokenKind::IMPLIES);
         return createConstraint<ImpliesConstraint>(
@@ -509,6 +527,7 @@ private:
         consume(ConstraintToken::ConstraintTokenKind::WHITESPACE);
         continue;
       case ConstraintToken::ConstraintTokenKind::AND:
+      case ConstraintToken::ConstraintTokenKind::DIVIDE:
       case ConstraintToken::ConstraintTokenKind::EQUAL:
       case ConstraintToken::ConstraintTokenKind::EQUIVALENT:
       case ConstraintToken::ConstraintTokenKind::GREATER:
@@ -521,6 +540,7 @@ private:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
       case ConstraintToken::ConstraintTokenKind::STAR:
+      case ConstraintToken::ConstraintTokenKind::XOR:
         llvm::errs()
             << "Syntax error: Unexpected token before unary expression.\n";
         return nullptr;
-- 
2.43.0


From 6d69ac6a48c3e83f114de491c89007ee9789a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 24/69] fix: exclusive or in the solver requires one of its
 operands

The visitor translated "a ^ b" into two implications that both only say "not
both"; deselecting both operands was accepted.
---
 lib/Solver/Z3Solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 1df128a..c1d9330 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -322,7 +322,7 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::BinaryConstraint *C) {
     break;
   case feature::Constraint::ConstraintKind::CK_XOR:
     Z3ConstraintExpression = z3::implies(Left, !Z3ConstraintExpression) &&
-                             z3::implies(Z3ConstraintExpression, !Left);
+                             z3::implies(!Z3ConstraintExpression, Left);
     break;
   default:
     llvm_unreachable(
-- 
2.43.0


From ed433a3a366e8847430eda1708b7171d4ab00061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 25/69] fix: ConfigurationFactory::isValid answers the question

The result was converted to bool by whether the query itself succeeded, so
every model was reported as valid.
---
 include/vara/Solver/ConfigurationFactory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index a4b4d2f..6cdad07 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -160,7 +160,8 @@ public:
   static bool isValid(feature::FeatureModel &Model,
                       const vara::solver::SolverType Type = SolverType::Z3) {
     auto S = SolverFactory::initializeSolver(Model, Type);
-    return S->hasValidConfigurations();
+    auto R = S->hasValidConfigurations();
+    return R && R.extractValue();
   }
 };
 
-- 
2.43.0


From 569010902780ddd4a1801ee36554bdbe2ac4683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 26/69] fix: advancing an unread configuration iterator skips
 its element

operator++ asked for the next configuration although the current one had not
been computed yet, so the element the iterator stood on was not skipped.
---
 include/vara/Solver/ConfigurationFactory.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index 6cdad07..6b58aaf 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -31,7 +31,11 @@ public:
     }
 
     ConfigurationIterator &operator++() {
-      auto R = S->getNextConfiguration();
+      // The current element may not have been read yet
+      auto R = S->getCurrentConfiguration();
+      if (R) {
+        R = S->getNextConfiguration();
+      }
       if (!R) {
         S = nullptr;
       }
-- 
2.43.0


From 47c39810289337584b2b7e2d3de4d48469c23e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 27/69] fix: configurations report negative numbers as numbers

Z3 renders the term -5 as "(- 5)", which became the value of the option.
---
 lib/Solver/Z3Solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index c1d9330..b3acbd4 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -241,8 +241,11 @@ Z3Solver::getCurrentConfiguration() {
   for (const auto &Entry : OptionToVariableMapping) {
     const z3::expr OptionExpr = *Entry.getValue();
     const z3::expr Value = CurrentModel->eval(OptionExpr, true);
-    Config->setConfigurationOption(Entry.getKey(),
-                                   llvm::StringRef(Value.to_string()));
+    std::string ValueString;
+    if (!Value.is_numeral(ValueString)) {
+      ValueString = Value.to_string();
+    }
+    Config->setConfigurationOption(Entry.getKey(), ValueString);
   }
   return Config;
 }
-- 
2.43.0


From a922c020c252fb0bd51bfeb3b3dbf1ef18c4d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 28/69] fix: enumerate the values of any numeric range

A range without step function was dereferenced as null, and a step function
that does not advance (0 * x, x ^ 1, ...) or that runs past the limits of the
value type never terminated. Without a function the step is one.
---
 lib/Solver/Z3Solver.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index b3acbd4..b77e4ac 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -4,6 +4,9 @@
 
 #include "z3++.h"
 
+#include <cmath>
+#include <set>
+
 namespace vara::solver {
 
 Result<SolverErrorCode>
@@ -43,12 +46,27 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
           std::get<vara::feature::NumericFeature::ValueRangeType>(Values);
       auto *StepFunction = F->getStepFunction();
       auto Step = Range.first;
-      std::vector<int64_t> Vals;
-      while (Step <= Range.second) {
-        Vals.insert(Vals.begin(), Step);
+      // Every value is visited once, so that a step function that does not
+      // advance cannot keep us here forever
+      std::set<int64_t> Vals;
+      while (Range.first <= Step && Step <= Range.second &&
+             Vals.insert(Step).second) {
+        if (!StepFunction) {
+          if (Step == Range.second) {
+            break;
+          }
+          ++Step;
+          continue;
+        }
+        const double Next = std::trunc(StepFunction->next<double>(Step));
+        if (!(static_cast<double>(Range.first) <= Next &&
+              Next <= static_cast<double>(Range.second))) {
+          break;
+        }
         Step = StepFunction->next(Step);
       }
-      if (auto R = addFeature(F->getName().str(), Vals); !R) {
+      if (auto R = addFeature(F->getName().str(), {Vals.begin(), Vals.end()});
+          !R) {
         return R;
       }
     }
-- 
2.43.0


From fbc7ae67ff17f3dca35cbb397d2873db6cd58189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 29/69] fix: binary features below a numeric feature

The variable of the parent was used as a condition although it is an integer
for numeric features, which Z3 rejects with an exception. Numeric features
always have a value, so that their children do not depend on them.
---
 include/vara/Solver/Z3Solver.h |  4 ++++
 lib/Solver/Z3Solver.cpp        | 23 ++++++++++++++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/vara/Solver/Z3Solver.h b/include/vara/Solver/Z3Solver.h
index 9a5772b..0e3ed1b 100644
--- a/include/vara/Solver/Z3Solver.h
+++ b/include/vara/Solver/Z3Solver.h
@@ -71,6 +71,10 @@ private:
   /// Exclude the current configuration by adding it as a constraint.
   void excludeCurrentConfiguration();
 
+  /// Returns the condition under which the given feature is selected. Numeric
+  /// features always have a value and, thus, are always selected.
+  z3::expr isSelected(const string &FeatureName);
+
   /// Processes the constraints of the binary feature and ignores the 'optional'
   /// constraint if the feature is in an alternative group.
   /// \return an error code in case of error.
diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index b77e4ac..e5d6aaa 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -143,7 +143,7 @@ Result<SolverErrorCode>
 Z3Solver::addRelationship(const feature::Relationship &R) {
   const auto *Parent =
       reinterpret_cast<const feature::Feature *>(R.getParent());
-  auto ParentOption = Context.bool_const(Parent->getName().str().c_str());
+  auto ParentOption = isSelected(Parent->getName().str());
   z3::expr_vector V(Context);
   for (const auto &Child : R.children()) {
     const auto *ChildFeature =
@@ -209,18 +209,27 @@ Z3Solver::getNextConfiguration() {
   return getCurrentConfiguration();
 }
 
+z3::expr Z3Solver::isSelected(const string &FeatureName) {
+  auto Search = OptionToVariableMapping.find(FeatureName);
+  if (Search != OptionToVariableMapping.end() &&
+      !Search->getValue()->is_bool()) {
+    return Context.bool_val(true);
+  }
+  return Context.bool_const(FeatureName.c_str());
+}
+
 Result<SolverErrorCode>
 Z3Solver::setBinaryFeatureConstraints(const feature::BinaryFeature &Feature,
                                       bool IsInAlternativeGroup) {
+  const z3::expr Option = *OptionToVariableMapping[Feature.getName()];
+  const z3::expr Parent =
+      isSelected(Feature.getParentFeature()->getName().str());
+
   // Add constraint to parent
-  Solver->add(z3::implies(
-      *OptionToVariableMapping[Feature.getName()],
-      *OptionToVariableMapping[Feature.getParentFeature()->getName()]));
+  Solver->add(z3::implies(Option, Parent));
 
   if (!IsInAlternativeGroup && !Feature.isOptional()) {
-    Solver->add(z3::implies(
-        *OptionToVariableMapping[Feature.getParentFeature()->getName()],
-        *OptionToVariableMapping[Feature.getName()]));
+    Solver->add(z3::implies(Parent, Option));
   }
 
   return Ok();
-- 
2.43.0


From 0f02daedf4502c6d5c8ea23b96a0108c0f05150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 30/69] fix: refuse adding a binary feature that has no parent
 to the solver

The missing parent was dereferenced.
---
 lib/Solver/Z3Solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index e5d6aaa..f8acc1a 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -77,6 +77,9 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
     if (!llvm::isa<vara::feature::BinaryFeature>(&FeatureToAdd)) {
       return NOT_SUPPORTED;
     }
+    if (!Parent) {
+      return PARENT_NOT_PRESENT;
+    }
     addFeature(FeatureToAdd.getName().str());
     auto R = setBinaryFeatureConstraints(
         *llvm::dyn_cast<vara::feature::BinaryFeature>(&FeatureToAdd),
-- 
2.43.0


From 803cb900034b88aea220a0bb36b26a4f2c9b3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 31/69] fix: alternative groups without children in the solver

z3::atmost must not be called with an empty list. A parent whose alternative
group has no child left to be selected cannot be selected, as for or groups.
---
 lib/Solver/Z3Solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index f8acc1a..9296036 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -155,6 +155,11 @@ Z3Solver::addRelationship(const feature::Relationship &R) {
   }
   switch (R.getKind()) {
   case feature::Relationship::RelationshipKind::RK_ALTERNATIVE:
+    if (V.empty()) {
+      // There is no child left that could be selected
+      Solver->add(!ParentOption);
+      break;
+    }
     Solver->add(z3::implies(ParentOption, z3::atmost(V, 1) & z3::mk_or(V)));
     break;
   case feature::Relationship::RelationshipKind::RK_OR:
-- 
2.43.0


From b18477db1e9e8f11b4b1f3b11e0fa5db296750f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 32/69] fix: the solver refuses constraints and groups over
 unknown features

As documented, adding a constraint that mentions a feature the solver does not
know is an error. Instead, a new free variable was made up for it, which no
configuration shows, so that every configuration came out several times or the
constraint had no effect. The same goes for groups.
---
 lib/Solver/Z3Solver.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 9296036..cf3d4fd 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -146,11 +146,19 @@ Result<SolverErrorCode>
 Z3Solver::addRelationship(const feature::Relationship &R) {
   const auto *Parent =
       reinterpret_cast<const feature::Feature *>(R.getParent());
+  if (OptionToVariableMapping.find(Parent->getName()) ==
+      OptionToVariableMapping.end()) {
+    return PARENT_NOT_PRESENT;
+  }
   auto ParentOption = isSelected(Parent->getName().str());
   z3::expr_vector V(Context);
   for (const auto &Child : R.children()) {
     const auto *ChildFeature =
         reinterpret_cast<const feature::Feature *>(Child);
+    if (OptionToVariableMapping.find(ChildFeature->getName()) ==
+        OptionToVariableMapping.end()) {
+      return NOT_ALL_CONSTRAINTS_PROCESSED;
+    }
     V.push_back(Context.bool_const(ChildFeature->getName().str().c_str()));
   }
   switch (R.getKind()) {
@@ -174,7 +182,7 @@ Z3Solver::addConstraint(feature::Constraint &ConstraintToAdd) {
   Z3SolverConstraintVisitor SCV(this);
   const bool Succ = SCV.addConstraint(&ConstraintToAdd);
   if (!Succ) {
-    return SolverErrorCode::NOT_SUPPORTED;
+    return SolverErrorCode::NOT_ALL_CONSTRAINTS_PROCESSED;
   }
   return Ok();
 }
@@ -189,7 +197,7 @@ Result<SolverErrorCode> Z3Solver::addMixedConstraint(
       ExprKind == feature::FeatureModel::MixedConstraint::ExprKind::NEG,
       Req == feature::FeatureModel::MixedConstraint::Req::ALL);
   if (!Succ) {
-    return SolverErrorCode::NOT_SUPPORTED;
+    return SolverErrorCode::NOT_ALL_CONSTRAINTS_PROCESSED;
   }
   return Ok();
 }
@@ -390,13 +398,12 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::UnaryConstraint *C) {
 
 bool Z3SolverConstraintVisitor::visit(
     vara::feature::PrimaryFeatureConstraint *C) {
-  if (C->getFeature()->getKind() ==
-      vara::feature::Feature::FeatureKind::FK_NUMERIC) {
-    Z3ConstraintExpression =
-        S->Context.int_const(C->getFeature()->getName().str().c_str());
-  } else {
-    Z3ConstraintExpression =
-        S->Context.bool_const(C->getFeature()->getName().str().c_str());
+  auto Search = S->OptionToVariableMapping.find(C->getFeature()->getName());
+  if (Search == S->OptionToVariableMapping.end()) {
+    return false;
+  }
+  Z3ConstraintExpression = *Search->getValue();
+  if (Z3ConstraintExpression.is_bool()) {
     if (MixedConstraint) {
       VariableConstraint = VariableConstraint || !Z3ConstraintExpression;
       Z3ConstraintExpression = z3::to_expr(
-- 
2.43.0


From 3984a4c789c3370c08e563958a3018d56429517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 33/69] fix: refuse step functions with malformed numbers

---
 include/vara/Feature/StepFunctionParser.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index faf7288..7f481e3 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -200,7 +200,12 @@ private:
       case StepFunctionToken::TokenKind::NUMBER:
         assert(peek().getValue().has_value());
         double Number;
-        llvm::StringRef(*next().getValue()).getAsDouble(Number);
+        if (auto Token = next();
+            llvm::StringRef(*Token.getValue()).getAsDouble(Number)) {
+          llvm::errs() << "Lexical error: Invalid number '"
+                       << *Token.getValue() << "'\n";
+          return std::nullopt;
+        }
         return {Number};
       }
     }
-- 
2.43.0


From e3549d1aa25fa372927783d1e1abb3dbfe81f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 34/69] fix: lexing an empty step function must not access an
 empty token list

---
 include/vara/Feature/StepFunctionParser.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index 7f481e3..4b1a0e0 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -68,9 +68,10 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != StepFunctionToken::TokenKind::END_OF_FILE &&
-        Kind != StepFunctionToken::TokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() !=
+             StepFunctionToken::TokenKind::END_OF_FILE &&
+         TokenList.back().getKind() != StepFunctionToken::TokenKind::ERROR)) {
       TokenList.push_back(
           StepFunctionToken(StepFunctionToken::TokenKind::END_OF_FILE));
     }
-- 
2.43.0


From 4dc8d72aa619c5052467b289f8748dafbbd29937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 35/69] fix: print step functions with their exact constants

---
 include/vara/Feature/StepFunction.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/StepFunction.h b/include/vara/Feature/StepFunction.h
index 19464f4..66ebad6 100644
--- a/include/vara/Feature/StepFunction.h
+++ b/include/vara/Feature/StepFunction.h
@@ -4,8 +4,11 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/FormatVariadic.h"
 
+#include <array>
+#include <charconv>
 #include <cmath>
 #include <memory>
+#include <string>
 #include <variant>
 
 namespace vara::feature {
@@ -62,30 +65,39 @@ public:
       switch (Op) {
       case StepOperation::ADDITION:
         return llvm::formatv("{0} + {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             format(std::get<double>(RHS)));
       case StepOperation::MULTIPLICATION:
         return llvm::formatv("{0} * {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             format(std::get<double>(RHS)));
       case StepOperation::EXPONENTIATION:
         return llvm::formatv("{0} ^ {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             format(std::get<double>(RHS)));
       }
     }
     assert(std::holds_alternative<double>(LHS));
     switch (Op) {
     case StepOperation::ADDITION:
-      return llvm::formatv("{0} + {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} + {1}", format(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::MULTIPLICATION:
-      return llvm::formatv("{0} * {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} * {1}", format(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::EXPONENTIATION:
-      return llvm::formatv("{0} ^ {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} ^ {1}", format(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     }
   }
 
 private:
+  /// Shortest decimal notation that denotes exactly this constant.
+  [[nodiscard]] static std::string format(double Value) {
+    // enough for every double in fixed notation
+    std::array<char, 1100> Buffer;
+    auto Result = std::to_chars(Buffer.data(), Buffer.data() + Buffer.size(),
+                                Value, std::chars_format::fixed);
+    return {Buffer.data(), Result.ptr};
+  }
+
   StepOperation Op;
   OperandVariantType LHS;
   OperandVariantType RHS;
-- 
2.43.0


From 9d8bfdae59a57dc3d574bcb57ae2ccf0896998bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 36/69] fix: iterating over a read-only configuration yields
 its options

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index f09d957..24ddcae 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -143,7 +143,7 @@ public:
   [[nodiscard]] llvm::StringMapConstIterator<
       std::unique_ptr<ConfigurationOption>>
   begin() const {
-    return OptionMappings.end();
+    return OptionMappings.begin();
   }
 
   [[nodiscard]] llvm::StringMapIterator<std::unique_ptr<ConfigurationOption>>
-- 
2.43.0


From acb5e4398e4e94cbcbf0834208bc0b478e92f646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 37/69] fix: capitalised true is true

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index 24ddcae..0ec80ee 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -111,7 +111,7 @@ private:
   convert(llvm::StringRef ValueToConvert) {
     // Parse the value
     if (ValueToConvert.lower() == "true" || ValueToConvert.lower() == "false") {
-      return ValueToConvert == "true";
+      return ValueToConvert.lower() == "true";
     }
     int64_t IntegerValue;
     if (!ValueToConvert.getAsInteger(0, IntegerValue)) {
-- 
2.43.0


From 633eb8b6923f0ea941f7f7da3934e6877acc6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 38/69] fix: values of configuration options are decimal

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index 0ec80ee..2ea9ae9 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -114,7 +114,7 @@ private:
       return ValueToConvert.lower() == "true";
     }
     int64_t IntegerValue;
-    if (!ValueToConvert.getAsInteger(0, IntegerValue)) {
+    if (!ValueToConvert.getAsInteger(10, IntegerValue)) {
       return IntegerValue;
     }
     return ValueToConvert.str();
-- 
2.43.0


From 6b928fd967ed0e1d2640b1c3c93416fe36676f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 39/69] fix: quotes and backslashes in output flags of written
 configurations

---
 lib/Sampling/SampleSetWriter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Sampling/SampleSetWriter.cpp b/lib/Sampling/SampleSetWriter.cpp
index eb63dcb..b294e58 100644
--- a/lib/Sampling/SampleSetWriter.cpp
+++ b/lib/Sampling/SampleSetWriter.cpp
@@ -25,7 +25,13 @@ std::string vara::sampling::SampleSetWriter::writeConfigurations(
           ConfigurationStringFlags.append(", ");
         }
         ConfigurationStringFlags.append("\"");
-        ConfigurationStringFlags.append(F->getOutputString().str());
+        // keep quotes and backslashes of the flag inside its quotes
+        for (char C : F->getOutputString()) {
+          if (C == '"' || C == '\\') {
+            ConfigurationStringFlags.push_back('\\');
+          }
+          ConfigurationStringFlags.push_back(C);
+        }
         if (F->getKind() == feature::Feature::FeatureKind::FK_NUMERIC) {
           auto OptionValue =
               Configuration->configurationOptionValue(F->getName());
-- 
2.43.0


From 4c0b11a44b7e57fe97257d9d6cd9874ee453a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 40/69] fix: write output strings, step functions, revision
 ranges and member offsets

---
 lib/Feature/FeatureModelWriter.cpp | 38 ++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index e75d9d8..eac0b98 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -310,6 +310,14 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                  charToUChar(Feature1.getName().data()));
   CHECK_RC
 
+  // output string
+  if (!Feature1.getOutputString().empty()) {
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::OUTPUTSTRING,
+        charToUChar(Feature1.getOutputString().str().c_str()));
+    CHECK_RC
+  }
+
   // parent
   if (Feature1.getParentFeature()) {
     RC = xmlTextWriterWriteElement(
@@ -441,6 +449,11 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                      charToUChar(Str.data()));
       CHECK_RC
     }
+    if (auto *Step = NF->getStepFunction()) {
+      RC = xmlTextWriterWriteElement(Writer, XmlConstants::STEPFUNCTION,
+                                     charToUChar(Step->toString().data()));
+      CHECK_RC
+    }
   }
 
   // locations?
@@ -478,6 +491,24 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   }
   CHECK_RC
 
+  if (Location.hasRevisionRange()) {
+    auto *Revisions = Location.revisionRange();
+    RC = xmlTextWriterStartElement(Writer, XmlConstants::REVISIONRANGE);
+    CHECK_RC
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::INTRODUCED,
+        charToUChar(Revisions->introducingCommit().str().c_str()));
+    CHECK_RC
+    if (Revisions->hasRemovingCommit()) {
+      RC = xmlTextWriterWriteElement(
+          Writer, XmlConstants::REMOVED,
+          charToUChar(Revisions->removingCommit().str().c_str()));
+      CHECK_RC
+    }
+    RC = xmlTextWriterEndElement(Writer); // REVISIONRANGE
+    CHECK_RC
+  }
+
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::PATH,
       charToUChar(Location.getPath().string().data()));
@@ -517,6 +548,13 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   RC = xmlTextWriterEndElement(Writer); // END
   CHECK_RC
 
+  if (Location.hasMemberOffset()) {
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::MEMBEROFFSET,
+        charToUChar(Location.getMemberOffset()->toString().c_str()));
+    CHECK_RC
+  }
+
   RC = xmlTextWriterEndElement(Writer); // SOURCERANGE
   return RC;
 }
-- 
2.43.0


From 7a886902dfcf3d629e705e674a171fdc2ed47793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 41/69] fix: write all 64 bits of the values of numeric
 features

---
 lib/Feature/FeatureModelWriter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index eac0b98..c36bf39 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -439,11 +439,12 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
       std::string Str;
-      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int X) {
+      for (int64_t X : Values) {
+        if (!Str.empty()) {
+          Str.push_back(';');
+        }
         Str.append(std::to_string(X));
-        Str.push_back(';');
-      });
-      Str.append(std::to_string(Values.back()));
+      }
 
       RC = xmlTextWriterWriteElement(Writer, XmlConstants::VALUES,
                                      charToUChar(Str.data()));
-- 
2.43.0


From f7c84d3257775eeae8c91ccc3d9dbb37ff0672b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 42/69] fix: refuse writing source ranges without positions
 instead of crashing

---
 lib/Feature/FeatureModelWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index c36bf39..d4e213b 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -477,6 +477,11 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
                                             FeatureSourceRange &Location) {
   int RC;
 
+  // The format requires both positions.
+  if (!Location.hasStart() || !Location.hasEnd()) {
+    return -1;
+  }
+
   RC = xmlTextWriterStartElement(Writer, XmlConstants::SOURCERANGE);
   CHECK_RC
 
-- 
2.43.0


From d4168c131f4164b29a4ce5c9130f166205ef6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 43/69] fix: report that the file to write a model to cannot be
 opened

---
 lib/Feature/FeatureModelWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index d4e213b..a7410d3 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -27,7 +27,7 @@ int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
   std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
       xmlNewTextWriterFilename(Path.data(), 0), &xmlFreeTextWriter);
   if (!Writer) {
-    return false;
+    return -1;
   }
 
   RC = writeFeatureModel(Writer.get());
-- 
2.43.0


From 25c8082d5c3135558932230a2ef2331ed9393c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 44/69] fix: write implications and exclusions of boolean
 constraints only as options

---
 include/vara/Feature/FeatureModelWriter.h |  2 +-
 lib/Feature/FeatureModelWriter.cpp        | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelWriter.h b/include/vara/Feature/FeatureModelWriter.h
index e24c56f..0068455 100644
--- a/include/vara/Feature/FeatureModelWriter.h
+++ b/include/vara/Feature/FeatureModelWriter.h
@@ -50,7 +50,7 @@ private:
   int writeBooleanConstraints(xmlTextWriterPtr Writer);
   int writeNonBooleanConstraints(xmlTextWriterPtr Writer);
   int writeMixedConstraints(xmlTextWriterPtr Writer);
-  static int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
+  int writeFeature(xmlTextWriterPtr Writer, Feature &Feature1);
   static int writeSourceRange(xmlTextWriterPtr Writer,
                               FeatureSourceRange &Location);
 
diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index a7410d3..fec1871 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -303,6 +303,16 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                         Feature &Feature1) {
   int RC;
 
+  // Non-boolean and mixed constraints are written in their own sections.
+  auto isBooleanConstraint = [this](const Constraint *C) {
+    for (const auto &B : FM.booleanConstraints()) {
+      if (B->constraint() == C) {
+        return true;
+      }
+    }
+    return false;
+  };
+
   RC = xmlTextWriterStartElement(Writer, XmlConstants::CONFIGURATIONOPTION);
   CHECK_RC
 
@@ -348,6 +358,9 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
   deprecated::OrderedFeatureVector Implications;
 
   for (const auto *C : Feature1.implications()) {
+    if (!isBooleanConstraint(C)) {
+      continue;
+    }
     if (const auto *LHS =
             llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
         LHS) {
@@ -386,6 +399,9 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     Excludes.insert(ES.begin(), ES.end());
   }
   for (const auto *C : Feature1.excludes()) {
+    if (!isBooleanConstraint(C)) {
+      continue;
+    }
     if (const auto *LHS =
             llvm::dyn_cast<PrimaryFeatureConstraint>(C->getLeftOperand());
         LHS) {
-- 
2.43.0


From f7379ff61757a1b9d0742796c1f0a915ad923d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 45/69] fix: attributes of mixed constraints are optional

---
 lib/Feature/FeatureModelParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1ea029c..dc68cf9 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -253,10 +253,10 @@ FeatureModelXmlParser::parseConstraints<FeatureModel::MixedConstraint>(
 
           FMB.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
               std::move(Constraint),
-              std::string(reinterpret_cast<char *>(R.get())) == "none"
+              R && std::string(reinterpret_cast<char *>(R.get())) == "none"
                   ? FeatureModel::MixedConstraint::Req::NONE
                   : FeatureModel::MixedConstraint::Req::ALL,
-              std::string(reinterpret_cast<char *>(E.get())) == "neg"
+              E && std::string(reinterpret_cast<char *>(E.get())) == "neg"
                   ? FeatureModel::MixedConstraint::ExprKind::NEG
                   : FeatureModel::MixedConstraint::ExprKind::POS));
         } else {
-- 
2.43.0


From c24defc09fdc2ad46c7df53db0eb5652766ede1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 46/69] fix: white space around the names of children

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index dc68cf9..4c2feda 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -65,7 +65,7 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         for (xmlNode *Child = Head->children; Child; Child = Child->next) {
           if (Child->type == XML_ELEMENT_NODE) {
             if (!xmlStrcmp(Child->name, XmlConstants::OPTIONS)) {
-              auto FeatureName = std::string(reinterpret_cast<char *>(
+              auto FeatureName = trim(reinterpret_cast<char *>(
                   std::unique_ptr<xmlChar, void (*)(void *)>(
                       xmlNodeGetContent(Child), xmlFree)
                       .get()));
-- 
2.43.0


From cc6ddc9a178973ef074ed20c0db9f113cce8b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 47/69] fix: refuse documents that define the root more than
 once

---
 include/vara/Feature/FeatureModelParser.h | 1 +
 lib/Feature/FeatureModelParser.cpp        | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/vara/Feature/FeatureModelParser.h b/include/vara/Feature/FeatureModelParser.h
index 6807d6c..fb22b3a 100644
--- a/include/vara/Feature/FeatureModelParser.h
+++ b/include/vara/Feature/FeatureModelParser.h
@@ -62,6 +62,7 @@ public:
 private:
   std::string Xml;
   FeatureModelBuilder FMB;
+  bool HasRoot = false;
 
   Result<FTErrorCode> parseConfigurationOption(xmlNode *Node, bool Num);
   Result<FTErrorCode> parseOptions(xmlNode *Node, bool Num);
diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 4c2feda..b3d4b6a 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -136,6 +136,11 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
 
   // XML has those names specified as root nodes
   if (Name == "root" || Name == "base") {
+    if (HasRoot) {
+      llvm::errs() << "Multiple definitions of the root.\n";
+      return Error(INCONSISTENT);
+    }
+    HasRoot = true;
     FMB.makeRoot(Name);
   } else if (Num) {
     if (Values.empty()) {
-- 
2.43.0


From 44a4133a1d5ef9b89d10862ee2a2ffb7f6b3c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 48/69] fix: read the locations of the root

---
 include/vara/Feature/FeatureModelBuilder.h | 6 ++++++
 lib/Feature/FeatureModelParser.cpp         | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/include/vara/Feature/FeatureModelBuilder.h b/include/vara/Feature/FeatureModelBuilder.h
index 6eaa1f7..88f1fe1 100644
--- a/include/vara/Feature/FeatureModelBuilder.h
+++ b/include/vara/Feature/FeatureModelBuilder.h
@@ -78,6 +78,12 @@ public:
     return this;
   }
 
+  FeatureModelBuilder *addLocation(const std::string &FeatureName,
+                                   FeatureSourceRange Location) {
+    RelationBuilder.addLocation(FeatureName, std::move(Location));
+    return this;
+  }
+
   FeatureModelBuilder *setVmName(std::string Name) {
     ModelBuilder.setName(std::move(Name));
     return this;
diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index b3d4b6a..79fe6cc 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -142,6 +142,9 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
     }
     HasRoot = true;
     FMB.makeRoot(Name);
+    for (auto &SourceRange : SourceRanges) {
+      FMB.addLocation(Name, std::move(SourceRange));
+    }
   } else if (Num) {
     if (Values.empty()) {
       FMB.makeFeature<NumericFeature>(Name, std::make_pair(MinValue, MaxValue),
-- 
2.43.0


From b30b2bad9edcf396e4411884d4b11dbdf63ca62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 49/69] fix: refuse documents that do not follow the DTD

---
 lib/Feature/FeatureModelParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 79fe6cc..f45bf7c 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -436,8 +436,7 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
       xmlFreeDoc);
   xmlCleanupParser();
   if (Doc && Ctxt->valid) {
-    xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get());
-    if (Ctxt->vctxt.valid) {
+    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get())) {
       return Doc;
     }
     llvm::errs() << "Failed to validate DTD.\n";
-- 
2.43.0


From 5adeda5a1679d915815ad720883b5d0b33c3e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 50/69] fix: write every implied option once

---
 lib/Feature/FeatureModelWriter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index fec1871..0ec17ca 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -370,7 +370,10 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
         if (LHS->getFeature() &&
             LHS->getFeature()->getName() == Feature1.getName() &&
             RHS->getFeature()) {
-          Implications.insert(RHS->getFeature());
+          if (std::find(Implications.begin(), Implications.end(),
+                        RHS->getFeature()) == Implications.end()) {
+            Implications.insert(RHS->getFeature());
+          }
         }
       }
     }
-- 
2.43.0


From d060f9dd0cdb52c25b2afba0528ea44a447af9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 51/69] fix: the name of SXFM models is optional

---
 lib/Feature/FeatureModelParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index f45bf7c..75a0305 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -512,7 +512,9 @@ bool FeatureModelSxfmParser::parseVm(xmlNode *Node) {
   // Parse the name first.
   {
     UniqueXmlChar Cnt(xmlGetProp(Node, XmlConstants::NAME), xmlFree);
-    FMB.setVmName(std::string(reinterpret_cast<char *>(Cnt.get())));
+    if (Cnt) {
+      FMB.setVmName(std::string(reinterpret_cast<char *>(Cnt.get())));
+    }
   }
   // After the feature model tag, some metadata is provided.
   // Currently, we skip the metadata and continue with parsing the feature tree
-- 
2.43.0


From 2f1aa7217ba1d982b5021e8fddd63c5eb1c07762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 52/69] fix: replace whole identifiers of SXFM clauses, and
 only once

---
 lib/Feature/FeatureModelParser.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 75a0305..9194c77 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -763,13 +763,6 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       UniqueXmlChar(xmlNodeGetContent(Constraints), xmlFree).get()));
   std::string To;
 
-  // Prepare the identifiers for later replacement
-  std::vector<std::string> Keys;
-  Keys.reserve(IdentifierMap.size());
-  std::for_each(IdentifierMap.begin(), IdentifierMap.end(),
-                [&Keys](const auto &Entry) { Keys.push_back(Entry.first); });
-  std::sort(Keys.begin(), Keys.end(), std::greater<std::string>{});
-
   while (std::getline(Ss, To)) {
     // Ignore if a line is empty
     if (To.empty() || std::all_of(To.begin(), To.end(), isspace)) {
@@ -793,17 +786,23 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
 
     // In the following lines, we replace all identifiers by the real feature
     // name
-    for (auto &Key : Keys) {
-      std::string Value = IdentifierMap[Key];
-      if (Value == Key) {
-        continue;
+    std::string Formula;
+    for (std::string::size_type I = 0; I < CnfFormula.length();) {
+      auto End = I;
+      while (End < CnfFormula.length() &&
+             (llvm::isAlnum(CnfFormula[End]) || CnfFormula[End] == '_')) {
+        End++;
       }
-      auto FoundPos = CnfFormula.find(Key);
-      while (FoundPos != std::string::npos) {
-        CnfFormula = CnfFormula.replace(FoundPos, Key.length(), Value);
-        FoundPos = CnfFormula.find(Key);
+      if (End == I) {
+        Formula += CnfFormula[I++];
+        continue;
       }
+      auto Token = CnfFormula.substr(I, End - I);
+      auto Entry = IdentifierMap.find(Token);
+      Formula += Entry != IdentifierMap.end() ? Entry->second : Token;
+      I = End;
     }
+    CnfFormula = Formula;
 
     // Replace 'or' by '|' and 'and' by '&'
     std::unordered_map<std::string, std::string> SpecialKeys;
-- 
2.43.0


From fe375a43a35a1056649c2238f7bf1176dfc89609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 53/69] fix: negated literals of SXFM clauses are boolean
 negations

---
 lib/Feature/FeatureModelParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 9194c77..4e448f2 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -808,6 +808,7 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
     std::unordered_map<std::string, std::string> SpecialKeys;
     SpecialKeys[" or "] = " | ";
     SpecialKeys[" and "] = " & ";
+    SpecialKeys["~"] = "!";
     for (auto &Key : SpecialKeys) {
       auto FoundPos = CnfFormula.find(Key.first);
       while (FoundPos != std::string::npos) {
-- 
2.43.0


From a4531a3e884788068001bed80cabf37f3cc4ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 54/69] fix: refuse SXFM documents with clauses that cannot be
 read

---
 lib/Feature/FeatureModelParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 4e448f2..83a17bf 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -818,10 +818,13 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       }
     }
 
-    if (auto Constraint = ConstraintParser(CnfFormula).buildConstraint()) {
-      FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
-          std::move(Constraint)));
+    auto Constraint = ConstraintParser(CnfFormula).buildConstraint();
+    if (!Constraint) {
+      llvm::errs() << "Failed to parse the clause in line " << To << "\n";
+      return false;
     }
+    FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
+        std::move(Constraint)));
   }
 
   return true;
-- 
2.43.0


From 15044aa4f29e619a10ac7fd7e3af5128e68591ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 55/69] fix: refuse SXFM lines with partial indentation or
 without a type

---
 lib/Feature/FeatureModelParser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 83a17bf..58ee354 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -598,6 +598,16 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
           checkedNarrowingSignConversion(IndentationString.count(Indentation));
       int Diff = CurrentIndentationLevel - LastIndentationLevel;
 
+      // The colon has to follow the indentation, and the type has to follow the
+      // colon
+      if (IndentationString.size() !=
+              CurrentIndentationLevel * Indentation.length() ||
+          IndentationString.size() + 1 >= To.length()) {
+        llvm::errs() << "Indentation error in feature tree in line " << To
+                     << "\n";
+        return false;
+      }
+
       // Remember the root indentation for later checks
       if (LastIndentationLevel == -1) {
         RootIndentation = CurrentIndentationLevel;
-- 
2.43.0


From 914b9f6e57f64195fd14b34ce74e4cc983d062b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 56/69] fix: refuse SXFM lines with unknown types

---
 lib/Feature/FeatureModelParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 58ee354..ae7a96b 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -655,6 +655,12 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
             << To << "'\n";
         return false;
       }
+      // The type has to be separated from the name
+      if (Pos < To.length() && To.at(Pos) != ' ') {
+        llvm::errs() << "Unsupported type of configuration option:'" << To
+                     << "'\n";
+        return false;
+      }
       // Extract the name
       Name =
           ToStringRef.substr(Pos + 1, ToStringRef.find(' ', Pos + 1) - Pos - 1)
-- 
2.43.0


From 8ccfdf2390dea67f70adb372f1187945e0011e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 57/69] fix: refuse SXFM features that are indented less than
 the root

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index ae7a96b..17bfcf9 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -722,7 +722,7 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
 
       // Add parent from the upper indentation level if there is one
       if (LastIndentationLevel != -1 &&
-          CurrentIndentationLevel == RootIndentation) {
+          CurrentIndentationLevel <= RootIndentation) {
         llvm::errs() << "Only one feature can be root and have the same "
                         "indentation as root.\n";
         return false;
-- 
2.43.0


From 0eac1d8f2ce54ebcebbf7430887b158876dcbffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 58/69] fix: refuse SXFM documents that do not start with the
 root

---
 lib/Feature/FeatureModelParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 17bfcf9..0688dee 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -713,6 +713,10 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       }
 
       // Create the feature
+      if (IsRoot != (LastIndentationLevel == -1)) {
+        llvm::errs() << "The first feature, and no other, has to be root.\n";
+        return false;
+      }
       if (IsRoot) {
         FMB.makeRoot(Name);
       } else {
@@ -758,6 +762,11 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       LastIndentationLevel = CurrentIndentationLevel;
     }
 
+    if (LastIndentationLevel == -1) {
+      llvm::errs() << "Failed to read in feature tree. Is it empty?\n";
+      return false;
+    }
+
     // Add the remaining or groups
     for (auto &OrGroup : OrGroupMapping) {
       FMB.emplaceRelationship(std::get<1>(OrGroup.second),
-- 
2.43.0


From 2ea3064e6fe3b22cbec8237e2c5fff05b9b45556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 59/69] fix: white space around the names of SXFM features

---
 lib/Feature/FeatureModelParser.cpp | 36 +++++++++---------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 0688dee..36eae9c 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -661,35 +661,21 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
                      << "'\n";
         return false;
       }
-      // Extract the name
-      Name =
-          ToStringRef.substr(Pos + 1, ToStringRef.find(' ', Pos + 1) - Pos - 1)
-              .str();
-
-      // Remove the cardinality
-      if (Name.find_first_of('[') != std::string::npos) {
-        Name = ToStringRef
-                   .substr(Pos + 1, ToStringRef.find('[', Pos + 1) - Pos - 1)
-                   .str();
-
-        if (Name.empty()) {
-          // In this case, the name could also be after the cardinality.
-          // According to the examples provided by S.P.L.O.T., this is a valid
-          // format.
-          auto Remainder =
-              ToStringRef.substr(Pos + 1, ToStringRef.size() - Pos - 1);
-          auto Tokens = Remainder.split(' ');
-          if (!Tokens.second.empty()) {
-            Name = Tokens.second.str();
-          }
-        }
+      // Extract the name, which is in front of the cardinality, if there is one
+      auto Remainder = ToStringRef.substr(Pos);
+      auto NameString = Remainder.substr(0, Remainder.find('[')).trim();
+      if (NameString.empty() && Remainder.contains('[')) {
+        // In this case, the name could also be after the cardinality.
+        // According to the examples provided by S.P.L.O.T., this is a valid
+        // format.
+        NameString = Remainder.split(']').second.trim();
       }
 
       // Note that we ignore the ID and use the name of the feature
       // as unique identifier.
-      if (Name.find_first_of('(') != std::string::npos) {
-        Name = Name.substr(0, Name.find('(', 0));
-      }
+      Name = NameString.substr(0, NameString.find('('))
+                 .take_until([](char C) { return C == ' '; })
+                 .str();
 
       // Search for identifier
       std::regex Regex(R"(\([a-zA-Z\d_]*\))");
-- 
2.43.0


From 9ec8e6f17c690f20d30e07ccac1f3627cf84cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 60/69] fix: refuse malformed cardinalities of SXFM groups

---
 lib/Feature/FeatureModelParser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 36eae9c..c126c70 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -855,6 +855,11 @@ std::optional<std::tuple<int, int>> FeatureModelSxfmParser::extractCardinality(
   }
   llvm::StringRef CardinalityString(StringToExtractFrom);
   size_t CommaPos = CardinalityString.find(',', Pos + 1);
+  if (CommaPos == llvm::StringRef::npos ||
+      CardinalityString.find(']', CommaPos) == llvm::StringRef::npos) {
+    llvm::errs() << "No parsable cardinality!\n";
+    return {};
+  }
   MinCardinality = parseCardinality(
       CardinalityString.substr(Pos + 1, CommaPos - Pos - 1).str());
   Pos = CommaPos;
@@ -889,7 +894,8 @@ FeatureModelSxfmParser::parseCardinality(llvm::StringRef CardinalityString) {
   } else {
     // Convert the string into an integer in a safe way
     int CardinalityValue;
-    if (!llvm::to_integer(CardinalityString, CardinalityValue, 10)) {
+    if (!llvm::to_integer(CardinalityString, CardinalityValue, 10) ||
+        CardinalityValue < 0) {
       llvm::errs() << llvm::formatv(
           "The cardinality: '{0}' was not an {1}-bit integer.\n",
           CardinalityString, sizeof(CardinalityValue) * 8);
-- 
2.43.0


From d99db41e654cb13854e0ce15cc8f3af061d6d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 61/69] fix: identifiers of unnamed SXFM groups

---
 lib/Feature/FeatureModelParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index c126c70..95feb87 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -680,16 +680,17 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       // Search for identifier
       std::regex Regex(R"(\([a-zA-Z\d_]*\))");
       std::string CurrentLine = ToStringRef.str();
+      std::vector<std::string> Identifiers;
       for (std::sregex_iterator Match = std::sregex_iterator(
                CurrentLine.begin(), CurrentLine.end(), Regex);
            Match != std::sregex_iterator(); Match++) {
         std::string Identifier = (*Match).str();
         Identifier = Identifier.substr(1, Identifier.size() - 2);
-        IdentifierMap[Identifier] = Name;
         if (Identifier != Name && Name.find(Identifier) != std::string::npos) {
           llvm::errs() << "Name must not contain ID:'" << Name << "'\n";
           return false;
         }
+        Identifiers.push_back(Identifier);
       }
 
       // If there is no name, provide an artificial one
@@ -697,6 +698,9 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         OrGroupCounter++;
         Name = "group_" + std::to_string(OrGroupCounter);
       }
+      for (const auto &Identifier : Identifiers) {
+        IdentifierMap[Identifier] = Name;
+      }
 
       // Create the feature
       if (IsRoot != (LastIndentationLevel == -1)) {
-- 
2.43.0


From 3fda5f976b2ac8950a7326f045486c17ffd8445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 62/69] fix: refuse SXFM documents with ambiguous names or
 identifiers

---
 lib/Feature/FeatureModelParser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 95feb87..c057f33 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -16,6 +16,7 @@
 
 #include <iostream>
 #include <regex>
+#include <set>
 
 namespace vara::feature {
 
@@ -555,6 +556,7 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         UniqueXmlChar(xmlNodeGetContent(FeatureTree), xmlFree).get()));
     std::string To;
     std::string Name;
+    std::set<std::string> Names;
     bool Opt;
     bool IsRoot;
     int LastIndentationLevel = -1;
@@ -699,7 +701,14 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         Name = "group_" + std::to_string(OrGroupCounter);
       }
       for (const auto &Identifier : Identifiers) {
-        IdentifierMap[Identifier] = Name;
+        if (!IdentifierMap.emplace(Identifier, Name).second) {
+          llvm::errs() << "Identifier is not unique:'" << Identifier << "'\n";
+          return false;
+        }
+      }
+      if (!Names.insert(Name).second) {
+        llvm::errs() << "Name is not unique:'" << Name << "'\n";
+        return false;
       }
 
       // Create the feature
-- 
2.43.0


From 7b015afe7f70ec94a972764531944ce1132b6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 63/69] fix: keep white space that is next to CDATA sections in
 SXFM trees

Blank text nodes are part of the indentation of the feature tree.
---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index c057f33..4250750 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -488,7 +488,7 @@ FeatureModelSxfmParser::UniqueXmlDoc FeatureModelSxfmParser::parseDoc() {
   UniqueXmlDoc Doc(
       xmlCtxtReadMemory(Ctxt.get(), Sxfm.c_str(),
                         checkedNarrowingSignConversion(Sxfm.length()), nullptr,
-                        nullptr, XML_PARSE_NOBLANKS),
+                        nullptr, 0),
       xmlFreeDoc);
   xmlCleanupParser();
 
-- 
2.43.0


From 20f52113c05beef4e7ea064cbd765f28d4216e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 64/69] fix: escape all operators of constraints in HTML

Only the outermost operator was escaped, the text of its operands was not.
---
 include/vara/Feature/Constraint.h | 49 +++++--------------------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/include/vara/Feature/Constraint.h b/include/vara/Feature/Constraint.h
index 45062aa..3c7aa2c 100644
--- a/include/vara/Feature/Constraint.h
+++ b/include/vara/Feature/Constraint.h
@@ -1,8 +1,10 @@
 #ifndef VARA_FEATURE_CONSTRAINT_H
 #define VARA_FEATURE_CONSTRAINT_H
 
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/FormatVariadic.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include <cassert>
 #include <memory>
@@ -78,7 +80,12 @@ public:
 
   [[nodiscard]] virtual std::string toString() const = 0;
 
-  [[nodiscard]] virtual std::string toHTML() const { return toString(); }
+  [[nodiscard]] virtual std::string toHTML() const {
+    std::string HTML;
+    llvm::raw_string_ostream OS(HTML);
+    llvm::printHTMLEscaped(toString(), OS);
+    return OS.str();
+  }
 
   virtual bool accept(ConstraintVisitor &V) = 0;
 
@@ -175,11 +182,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &amp; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_AND;
   }
@@ -246,11 +248,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_IMPLIES;
   }
@@ -273,11 +270,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; !{1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EXCLUDES;
   }
@@ -301,11 +293,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;=&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EQUIVALENCE;
   }
@@ -418,11 +405,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS;
   }
@@ -445,11 +427,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER;
   }
@@ -472,11 +449,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS_EQUAL;
   }
@@ -500,11 +472,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER_EQUAL;
   }
-- 
2.43.0


From ad27b96d9501a37095fad42cf282426f5e62e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 65/69] fix: escape the text of graph labels as HTML

The labels of features are HTML-like, the escape sequences of plain strings
have no meaning there.
---
 include/vara/Feature/FeatureModel.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/vara/Feature/FeatureModel.h b/include/vara/Feature/FeatureModel.h
index ef59d01..1b9a6f7 100644
--- a/include/vara/Feature/FeatureModel.h
+++ b/include/vara/Feature/FeatureModel.h
@@ -9,6 +9,7 @@
 #include "vara/Utils/UniqueIterator.h"
 
 #include "llvm/ADT/SmallSet.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringMap.h"
 #include "llvm/Support/GraphWriter.h"
 
@@ -581,11 +582,18 @@ struct GraphWriter<vara::feature::FeatureModel *> {
     }
   }
 
+  /// Escape text of a label, which is HTML.
+  static std::string escapeHTML(StringRef Text) {
+    std::string HTML;
+    raw_string_ostream OS(HTML);
+    printHTMLEscaped(Text, OS);
+    return OS.str();
+  }
+
   static std::string buildFeatureLabel(vara::feature::Feature *F) {
     std::stringstream CS;
     for (const auto &C : F->constraints()) {
-      CS << "<tr><td>" << DOT::EscapeString(C->getRoot()->toHTML())
-         << "</td></tr>";
+      CS << "<tr><td>" << C->getRoot()->toHTML() << "</td></tr>";
     }
 
     std::stringstream LS;
@@ -593,7 +601,7 @@ struct GraphWriter<vara::feature::FeatureModel *> {
       LS << "<hr/>";
       for (const auto &Location : F->getLocations()) {
         LS << llvm::formatv("<tr><td><b>{0}</b></td></tr>",
-                            DOT::EscapeString(Location.toString()))
+                            escapeHTML(Location.toString()))
                   .str();
       }
     }
@@ -603,8 +611,8 @@ struct GraphWriter<vara::feature::FeatureModel *> {
         "cellborder=\"0\" "
         "cellpadding=\"5\">{0}{1}{2}</table>>",
         llvm::formatv("<tr><td><b>{0} (Flag: {1})</b></td></tr>",
-                      DOT::EscapeString(F->getName().str()),
-                      F->getOutputString().trim().str()),
+                      escapeHTML(F->getName()),
+                      escapeHTML(F->getOutputString().trim())),
         CS.str(), LS.str());
   }
 
-- 
2.43.0


From 94751031fe58536dd31fdaa591b5b0de7a8b2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 66/69] fix: optional features of the Python model builder

---
 bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
index 06b36fb..5f9382e 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
@@ -19,7 +19,7 @@ void init_feature_model_builder_module(py::module &M) {
       .def(
           "make_binary_feature",
           [](vf::FeatureModelBuilder &FMB, std::string feature_name, bool Opt) {
-            return FMB.makeFeature<vf::BinaryFeature>(feature_name);
+            return FMB.makeFeature<vf::BinaryFeature>(feature_name, Opt);
           },
           R"pbdoc(Create a new binary `Feature` with the given `feature_name`.)pbdoc")
       .def(
-- 
2.43.0


From 283cf8fc48aabf8d5dfe8bc2e8280062f9692adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 67/69] fix: lines and columns in Python cover the whole native
 range

---
 bindings/python/vara-feature/pybind_FeatureSourceRange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureSourceRange.cpp b/bindings/python/vara-feature/pybind_FeatureSourceRange.cpp
index 76ed796..07e4cfd 100644
--- a/bindings/python/vara-feature/pybind_FeatureSourceRange.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureSourceRange.cpp
@@ -88,7 +88,7 @@ void init_feature_location_module(py::module &M) {
 
   py::class_<vf::FeatureSourceRange::FeatureSourceLocation>(M,
                                                             "LineColumnOffset")
-      .def(py::init<int, int>())
+      .def(py::init<unsigned, unsigned>())
       .def_property(
           "line_number",
           &vf::FeatureSourceRange::FeatureSourceLocation::getLineNumber,
-- 
2.43.0


From ab55d29ae137f7c509c338df79482dda9c749784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 68/69] fix: fm-viewer -verify exits after verifying the input

---
 tools/fm-viewer/FeatureModelViewer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/fm-viewer/FeatureModelViewer.cpp b/tools/fm-viewer/FeatureModelViewer.cpp
index 85e5914..cfbc5a3 100644
--- a/tools/fm-viewer/FeatureModelViewer.cpp
+++ b/tools/fm-viewer/FeatureModelViewer.cpp
@@ -65,6 +65,10 @@ int main(int Argc, char **Argv) {
     return 1;
   }
 
+  if (Verify) {
+    return 0;
+  }
+
   if (Dump) {
     FM->dump();
   } else if (!Out.empty()) {
-- 
2.43.0


From fa0e3b18b2cf137906b0c359e11c592e8594cfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:39 +0000
Subject: [PATCH 69/69] fix: copying a result, ok or error copies it instead of
 converting it

---
 include/vara/Utils/Result.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/vara/Utils/Result.h b/include/vara/Utils/Result.h
index 595f6c9..bde419c 100644
--- a/include/vara/Utils/Result.h
+++ b/include/vara/Utils/Result.h
@@ -21,7 +21,10 @@ class Ok {
 public:
   Ok(ValueTy V) : V(std::move(V)) {}
 
-  template <typename... ArgsTy>
+  template <typename... ArgsTy,
+            std::enable_if_t<
+                !std::disjunction_v<std::is_same<Ok, std::decay_t<ArgsTy>>...>,
+                bool> = true>
   Ok(ArgsTy &&...Args) : V(std::forward<ArgsTy>(Args)...) {}
 
   ValueTy operator*() & { return V; }
@@ -63,7 +66,10 @@ class Error {
 public:
   Error(ErrorTy E) : E(std::move(E)) {}
 
-  template <typename... ArgsTy>
+  template <typename... ArgsTy,
+            std::enable_if_t<!std::disjunction_v<
+                                 std::is_same<Error, std::decay_t<ArgsTy>>...>,
+                             bool> = true>
   Error(ArgsTy &&...Args) : E(std::forward<ArgsTy>(Args)...) {}
 
   ErrorTy operator*() & { return E; }
@@ -96,14 +102,18 @@ public:
   Result(Error<ErrorTy> E) : Variant(std::move(E)) {}
 
   template <typename... ArgsTy,
-            std::enable_if_t<std::is_constructible_v<ValueTy, ArgsTy...>,
+            std::enable_if_t<std::is_constructible_v<ValueTy, ArgsTy...> &&
+                                 !std::disjunction_v<std::is_same<
+                                     Result, std::decay_t<ArgsTy>>...>,
                              bool> = true>
   Result(ArgsTy &&...Args)
       : Variant(std::in_place_type<Ok<ValueTy>>,
                 std::forward<ArgsTy>(Args)...) {}
 
   template <typename... ArgsTy,
-            std::enable_if_t<std::is_constructible_v<ErrorTy, ArgsTy...>,
+            std::enable_if_t<std::is_constructible_v<ErrorTy, ArgsTy...> &&
+                                 !std::disjunction_v<std::is_same<
+                                     Result, std::decay_t<ArgsTy>>...>,
                              bool> = true>
   Result(ArgsTy &&...Args)
       : Variant(std::in_place_type<Error<ErrorTy>>,
-- 
2.43.0

