From 57613067ccb23f14294139888ce86949bfcd01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 01/31] fix: BlockIndex::overlap when second segment strictly
 contains first

---
 src/matrix-view.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index 21afd39..c571301 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -76,9 +76,7 @@ bool BlockIndex::overlap(const segment_t& a, const segment_t& b) {
   size_type aend = a.first + a.second;
   size_type bend = b.first + b.second;
 
-  if (a.first <= b.first && b.first < aend) return true;
-  if (a.first < bend && bend <= aend) return true;
-  return false;
+  return a.first < bend && b.first < aend;
 }
 
 size_type BlockIndex::cardinal(const segments_t& a) {
-- 
2.43.0


From d0462b259835d53ecb647c1daecdb6006889d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 02/31] fix: BlockIndex::extract of an empty range

---
 src/matrix-view.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index c571301..81d0cff 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -209,9 +209,10 @@ BlockIndex::segments_t BlockIndex::extract(const segments_t& segments,
                                            size_type cardinal) {
   assert(start >= 0);
   assert(cardinal >= 0);
-  assert(segments[0].first >= 0);
   assert(start + cardinal <= BlockIndex::cardinal(segments));
   segments_t result;
+  if (cardinal == 0) return result;
+  assert(segments[0].first >= 0);
   size_type remainingToStart = start;
   size_type startIndex;
   size_type remainingToEnd = 0;
-- 
2.43.0


From 55577c675541b4e9be4895b624fbcffbf7b0f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 03/31] fix: block-wise operation between two matrix views uses
 the blocks of each view

---
 include/hpp/constraints/impl/matrix-view-operation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/impl/matrix-view-operation.hh b/include/hpp/constraints/impl/matrix-view-operation.hh
index 22553dd..4a66b90 100644
--- a/include/hpp/constraints/impl/matrix-view-operation.hh
+++ b/include/hpp/constraints/impl/matrix-view-operation.hh
@@ -215,7 +215,7 @@ HPP_EIGEN_SPECIALIZE_CwiseBinaryOpImpl(HPP_EIGEN_LHS_TPL, HPP_EIGEN_LHS_TYPE,
   typename Rhs_t::block_iterator rblock(d.rhs());
   while (lblock.valid()) {
     BlockLhs lhs = d.lhs()._block(lblock);
-    BlockRhs rhs = d.rhs()._block(lblock);
+    BlockRhs rhs = d.rhs()._block(rblock);
     assert(lblock.rs() == rblock.rs() && lblock.cs() == rblock.cs());
     assert(lblock.ro() == rblock.ro() && lblock.co() == rblock.co());
     other.derived().block(rblock.ro(), rblock.co(), rblock.rs(), rblock.cs()) =
-- 
2.43.0


From 3d089357fdd35cb7f0949fe0d6873b724b4f80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 04/31] fix: masked inequality rows do not contribute to the
 error of the solver

---
 src/solver/hierarchical-iterative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 9b153ba..9469b54 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -631,7 +631,6 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     assert(hpp::pinocchio::checkNormalized(d.output));
     assert(hpp::pinocchio::checkNormalized(d.rightHandSide));
     d.error = d.output - d.rightHandSide;
-    constraints.setInactiveRowsToZero(d.error);
     if (ComputeJac) {
       f.jacobian(d.jacobian, config);
       d.output.space()->dDifference_dq1<pinocchio::DerivativeTimesInput>(
@@ -639,6 +638,7 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     }
     applyComparison<ComputeJac>(d.comparison, d.inequalityIndices, d.error,
                                 d.jacobian, inequalityThreshold_);
+    constraints.setInactiveRowsToZero(d.error);
 
     // Copy columns that are not reduced
     if (ComputeJac) d.reducedJ = d.activeRowsOfJ.rview(d.jacobian);
-- 
2.43.0


From 5c34d770114ed7e9ca0d179ede8308cafb93d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 05/31] fix: isConstraintSatisfied takes comparison types into
 account

---
 src/solver/hierarchical-iterative.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 9469b54..3a1278e 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -557,6 +557,13 @@ bool HierarchicalIterative::isConstraintSatisfied(
                          f->outputSpace());
   f->value(output, arg);
   error = output - rhs;
+  const ComparisonTypes_t& comparison(constraint->comparisonType());
+  for (size_type k = 0; k < error.size(); ++k) {
+    if (comparison[k] == Superior)
+      compare<true, false>(error[k], d.jacobian.row(0), inequalityThreshold_);
+    else if (comparison[k] == Inferior)
+      compare<false, false>(error[k], d.jacobian.row(0), inequalityThreshold_);
+  }
   constraint->setInactiveRowsToZero(error);
   return (error.squaredNorm() < squaredErrorThreshold_);
 }
-- 
2.43.0


From 701e11eab88c9aa06d6a3c29d529ea54bf131fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 06/31] fix: HierarchicalIterative::rightHandSide with several
 priority levels

---
 src/solver/hierarchical-iterative.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 3a1278e..7fb70b1 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -569,7 +569,7 @@ bool HierarchicalIterative::isConstraintSatisfied(
 }
 
 void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
-  size_type iq = 0, iv = 0;
+  size_type iq = 0;
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     Data& d = datas_[i];
     LiegroupSpacePtr_t space(d.rightHandSide.space());
@@ -578,17 +578,16 @@ void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
     pinocchio::LiegroupElementConstRef output(
         space->elementConstRef(rightHandSide.segment(iq, nq)));
     LiegroupElementRef rhs(
-        space->elementRef(d.rightHandSide.vector().segment(iq, nq)));
+        space->elementRef(d.rightHandSide.vector().segment(0, nq)));
 
     // d.error is used here as an intermediate storage. The value
     // computed is not the error
     d.error = output - space->neutral();  // log (rightHandSide)
     for (size_type k = 0; k < nv; ++k) {
-      if (d.comparison[iv + k] != Equality) assert(d.error[k] == 0);
+      if (d.comparison[k] != Equality) assert(d.error[k] == 0);
     }
     rhs = space->neutral() + d.error;  // exp (d.error)
     iq += nq;
-    iv += nv;
   }
   assert(iq == rightHandSide.size());
 }
-- 
2.43.0


From e958abe8ce4eeaf67c5e80fa9729d0e4e3c01a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 07/31] fix: BySubstitution::rightHandSide passes the last
 components to the explicit constraints

---
 src/solver/by-substitution.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 3039fb4..ed4b1b7 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -352,7 +352,7 @@ void BySubstitution::rightHandSide(vectorIn_t rhs) {
   const size_type top = parent_t::rightHandSideSize();
   const size_type bot = explicit_.rightHandSideSize();
   parent_t::rightHandSide(rhs.head(top));
-  explicit_.rightHandSide(rhs.head(bot));
+  explicit_.rightHandSide(rhs.tail(bot));
 }
 
 vector_t BySubstitution::rightHandSide() const {
-- 
2.43.0


From d0a8db27355faaa117199154fd7073d3408b0a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 08/31] fix: copied solvers do not share the output spaces of
 their constraints

---
 src/solver/hierarchical-iterative.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 7fb70b1..fadb62d 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -250,6 +250,14 @@ HierarchicalIterative::HierarchicalIterative(const HierarchicalIterative& other)
   for (auto& ics : stacks_) {
     ics.replace(oldToNew);
   }
+  // The copied values should not share their spaces with other: these spaces
+  // are modified when a constraint is added.
+  for (std::size_t i = 0; i < datas_.size(); ++i) {
+    Data& d = datas_[i];
+    const LiegroupSpacePtr_t space(stacks_[i].function().outputSpace());
+    d.output = LiegroupElement(d.output.vector(), space);
+    d.rightHandSide = LiegroupElement(d.rightHandSide.vector(), space);
+  }
 }
 
 bool HierarchicalIterative::contains(
-- 
2.43.0


From d7e05edb0df20af04f52843e43684a4c6ea863fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 09/31] fix: Jacobian of a function extracted on an interval

---
 src/extracted-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extracted-function.hh b/src/extracted-function.hh
index 91c3335..a119dc7 100644
--- a/src/extracted-function.hh
+++ b/src/extracted-function.hh
@@ -69,7 +69,7 @@ class ExtractedFunction : public DifferentiableFunction {
       original_->jacobian(jacobian, param);
       jacobian *= -1;
     } else {
-      param[0] = arg[0] - t1_;
+      param[0] = t1_ + arg[0];
       return original_->jacobian(jacobian, param);
     }
   }
-- 
2.43.0


From c9eeae492065cd1bdc919392ab20b95b933d7c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 10/31] fix: solver without constraint whose last level is
 optional

The number of mandatory levels underflowed, so that computing the error or
printing the solver read out of bounds.
---
 src/solver/hierarchical-iterative.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index fadb62d..6520017 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -707,7 +707,8 @@ void HierarchicalIterative::getReducedJacobian(matrixOut_t J) const {
 
 void HierarchicalIterative::computeError() const {
   const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+      (lastIsOptional_ && !stacks_.empty() ? stacks_.size() - 1
+                                            : stacks_.size());
   squaredNorm_ = 0;
   for (std::size_t i = 0; i < end; ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
@@ -848,7 +849,8 @@ std::ostream& HierarchicalIterative::print(std::ostream& os) const {
      << dimension() << iendl << "reduced dimension " << reducedDimension()
      << iendl << "free variables: " << freeVariables_ << incindent;
   const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+      (lastIsOptional_ && !stacks_.empty() ? stacks_.size() - 1
+                                            : stacks_.size());
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
         stacks_[i].constraints());
-- 
2.43.0


From 47d3d8c3118f403b25a04bb43bdfe3b226fef444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 11/31] fix: saturation of degrees of freedom with several
 configuration variables

The last configuration variable of a joint like a planar rotation or a
quaternion overwrote the saturation reported for the previous ones.
---
 src/solver/hierarchical-iterative.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 6520017..20abaab 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -118,6 +118,8 @@ bool Base::saturate(vectorIn_t q, vectorOut_t qSat,
   return false;
 }
 
+// s is left unchanged if v is within the bounds since several configuration
+// variables may correspond to the same degree of freedom.
 bool clamp(const value_type& lb, const value_type& ub, const value_type& v,
            value_type& vsat, int& s) {
   if (v <= lb) {
@@ -130,7 +132,6 @@ bool clamp(const value_type& lb, const value_type& ub, const value_type& v,
     return true;
   } else {
     vsat = v;
-    s = 0;
     return false;
   }
 }
@@ -138,6 +139,7 @@ bool clamp(const value_type& lb, const value_type& ub, const value_type& v,
 bool Bounds::saturate(vectorIn_t q, vectorOut_t qSat,
                       Eigen::VectorXi& saturation) {
   bool sat = false;
+  saturation.setZero();
   for (size_type i = 0; i < q.size(); ++i)
     if (clamp(lb[i], ub[i], q[i], qSat[i], saturation[iq2iv_[i]])) sat = true;
   return sat;
@@ -145,6 +147,7 @@ bool Bounds::saturate(vectorIn_t q, vectorOut_t qSat,
 
 bool Device::saturate(vectorIn_t q, vectorOut_t qSat, Eigen::VectorXi& sat) {
   bool ret = false;
+  sat.setZero();
   const pinocchio::Model& m = device->model();
 
   for (std::size_t i = 1; i < m.joints.size(); ++i) {
-- 
2.43.0


From 3afb518dab954f3fb30875692aff3ec17a6a3945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 12/31] fix: BySubstitution succeeds on a satisfying
 configuration it cannot improve

When no degree of freedom acts on the implicit constraints, an error between
half the threshold and the threshold was reported as infeasible.
---
 include/hpp/constraints/solver/impl/by-substitution.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index a02dbd4..cb20420 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -79,7 +79,8 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
   }
 
   bool errorIsAboveThr = (squaredNorm_ > .25 * squaredErrorThreshold_);
-  if (errorIsAboveThr && reducedDimension_ == 0) return INFEASIBLE;
+  if (errorIsAboveThr && reducedDimension_ == 0)
+    return errorWasBelowThr ? SUCCESS : INFEASIBLE;
   if (optimize && !errorIsAboveThr) qopt = arg;
 
   Status status = SUCCESS;
-- 
2.43.0


From 718a4885c7aedf4b3a212e31be6e3b45dd6d3c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 13/31] fix: BySubstitution keeps a satisfying configuration
 when leaving a domain of definition

While trying to decrease further the error of a configuration that already
satisfies the constraints, a step outside the domain of definition of an
explicit constraint was reported as infeasible.
---
 include/hpp/constraints/solver/impl/by-substitution.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index cb20420..6eb9598 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -113,6 +113,11 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
       lineSearch(*this, arg, dq_);
       explicit_.solve(arg);
     } catch (const FunctionNotDefinedForThisValue& exc) {
+      if (!optimize && errorWasBelowThr) {
+        // The initial configuration satisfies the constraints.
+        arg = initArg;
+        return SUCCESS;
+      }
       return INFEASIBLE;
     }
     assert(!arg.hasNaN());
-- 
2.43.0


From fa7d08a5a6a1b152f8e3c4e19608866ef9deb2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 14/31] fix: descent direction starts from zero when the first
 level has no active row

---
 src/solver/hierarchical-iterative.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 20abaab..cb1c237 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -788,6 +788,8 @@ void HierarchicalIterative::computeDescentDirection() const {
     // dQ_1 = dQ_0 + P_0 * M+_1 * (-f_1(q) - J_1 * dQ_1)
     //  P_1 = P_0 * K_1
     matrix_t* projector = NULL;
+    // The first levels may have no active row.
+    dqSmall_.setZero();
     for (std::size_t i = 0; i < stacks_.size(); ++i) {
       Data& d = datas_[i];
 
-- 
2.43.0


From a1fad42265bcee342338eb68757c863c88db4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 15/31] fix: no descent step for a single level without active
 row

---
 src/solver/hierarchical-iterative.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index cb1c237..d6e371f 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -769,6 +769,10 @@ void HierarchicalIterative::computeDescentDirection() const {
   vector_t err;
   if (stacks_.size() == 1) {  // one level only
     Data& d = datas_[0];
+    if (d.reducedJ.rows() == 0) {  // No active row, nothing to do.
+      dq_.setZero();
+      return;
+    }
     d.svd.compute(d.reducedJ);
     HPP_DEBUG_SVDCHECK(d.svd);
     // TODO Eigen::JacobiSVD does a dynamic allocation here.
-- 
2.43.0


From 64cc6671f6f464dbdaae14785967a682b6b59070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 16/31] fix: locked joint of part of a joint or of extra
 degrees of freedom

---
 src/locked-joint.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 84ca65a..848b33b 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -126,22 +126,22 @@ LockedJoint::LockedJoint(const JointPtr_t& joint, const size_type index,
                          vectorIn_t value)
     : Explicit(joint->robot()->configSpace(),
                ConstantFunction::create(
-                   LiegroupElement(
-                       value, LiegroupSpace::Rn(joint->configSize() - index)),
-                   0, 0, "partial " + joint->name()),
+                   LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
+                   0, "partial " + joint->name()),
                segments_t(),  // input conf
-               segments_t(),  // input vel
-               {segment_t(joint->rankInConfiguration(),
-                          joint->configSize() - index)},  // output conf
-               {segment_t(joint->rankInVelocity(),
-                          joint->numberDof() - index)},  // output vel
-               ComparisonTypes_t(joint->numberDof() - index, Equality),
-               std::vector<bool>(joint->numberDof(), true)),
+               {segment_t(joint->rankInConfiguration() + index,
+                          value.size())},  // output conf
+               segments_t(),               // input vel
+               {segment_t(joint->rankInVelocity() + index,
+                          value.size())},  // output vel
+               ComparisonTypes_t(value.size(), Equality),
+               std::vector<bool>(value.size(), true)),
       jointName_("partial_" + joint->name()),
       joint_(joint),
-      configSpace_(LiegroupSpace::Rn(joint->configSize() - index)) {
+      configSpace_(LiegroupSpace::Rn(value.size())) {
   assert(HPP_DYNAMIC_PTR_CAST(explicit_::ImplicitFunction, functionPtr()));
   assert(joint->numberDof() == joint->configSize());
+  assert(index + value.size() <= joint->configSize());
   // rightHandSide (value);
   assert(rightHandSideSize() == value.size());
 }
@@ -153,10 +153,10 @@ LockedJoint::LockedJoint(const DevicePtr_t& dev, const size_type index,
                    LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
                    0, dev->name() + "_extraDof" + numToStr(index)),
                segments_t(),  // input conf
-               segments_t(),  // input vel
                {segment_t(dev->configSize() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output conf
+               segments_t(),               // input vel
                {segment_t(dev->numberDof() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output vel
-- 
2.43.0


From be4e70fc8f4c699f4190cacb8f0aca75aa9d8233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 17/31] fix: one step of the solver by substitution uses the
 residual of its argument

---
 include/hpp/constraints/solver/by-substitution.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/constraints/solver/by-substitution.hh b/include/hpp/constraints/solver/by-substitution.hh
index 0c800ce..e12efd2 100644
--- a/include/hpp/constraints/solver/by-substitution.hh
+++ b/include/hpp/constraints/solver/by-substitution.hh
@@ -250,6 +250,7 @@ class HPP_CONSTRAINTS_DLLAPI BySubstitution
   template <typename LineSearchType>
   bool oneStep(vectorOut_t arg, LineSearchType& lineSearch) const {
     computeValue<true>(arg);
+    computeError();
     updateJacobian(arg);
     computeDescentDirection();
     lineSearch(*this, arg, dq_);
-- 
2.43.0


From 65d5938f079e606e4b227ed87f508bd24f242abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 18/31] fix: gradient of the configuration constraint with
 weights

The weights multiplied the columns of the gradient after the Jacobian of
the difference was applied: the two operations do not commute.
---
 src/configuration-constraint.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/configuration-constraint.cc b/src/configuration-constraint.cc
index e77c64f..28c4bbb 100644
--- a/src/configuration-constraint.cc
+++ b/src/configuration-constraint.cc
@@ -117,14 +117,12 @@ void ConfigurationConstraint::impl_jacobian(matrixOut_t jacobian,
   using namespace hpp::pinocchio;
 
   LiegroupElementConstRef a(argument, goal_.space());
-  jacobian.leftCols(robot_->numberDof()).noalias() = (goal_ - a).transpose();
+  jacobian.leftCols(robot_->numberDof()).noalias() =
+      (goal_ - a).cwiseProduct(weights_).transpose();
 
   // Apply jacobian of the difference on the right.
   goal_.space()->dDifference_dq0<pinocchio::InputTimesDerivative>(
       argument, goal_.vector(), jacobian.leftCols(robot_->numberDof()));
-
-  jacobian.leftCols(robot_->numberDof()).array() *=
-      weights_.array().transpose();
 }
 }  // namespace constraints
 }  // namespace hpp
-- 
2.43.0


From c401d81dd10716fe25b802e26205b1f76f126a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 19/31] fix: Jacobian of a function of a subset of the
 parameters is zero elsewhere

---
 include/hpp/constraints/function/of-parameter-subset.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/constraints/function/of-parameter-subset.hh b/include/hpp/constraints/function/of-parameter-subset.hh
index aac7a98..da69135 100644
--- a/include/hpp/constraints/function/of-parameter-subset.hh
+++ b/include/hpp/constraints/function/of-parameter-subset.hh
@@ -83,6 +83,7 @@ class HPP_CONSTRAINTS_DLLAPI OfParameterSubset : public DifferentiableFunction {
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    J.setZero();
     g_->jacobian(J.middleCols(sd_.first, sd_.second),
                  arg.segment(sa_.first, sa_.second));
   }
-- 
2.43.0


From 58fef2cc2a4b42dab6f9d5abd893568c3cde7952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 20/31] fix: Jacobian of Difference outside the operands and
 for outputs that are not vectors

---
 include/hpp/constraints/function/difference.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/function/difference.hh b/include/hpp/constraints/function/difference.hh
index 1520a8a..c280e9d 100644
--- a/include/hpp/constraints/function/difference.hh
+++ b/include/hpp/constraints/function/difference.hh
@@ -67,11 +67,19 @@ class HPP_CONSTRAINTS_LOCAL Difference
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    J.setZero();
     inner_->jacobian(J.middleCols(lsd_.first, lsd_.second),
                      arg.segment(lsa_.first, lsa_.second));
     inner_->jacobian(J.middleCols(rsd_.first, rsd_.second),
                      arg.segment(rsa_.first, rsa_.second));
-    J.middleCols(rsd_.first, rsd_.second) *= -1;
+    // Apply the Jacobian of the difference.
+    inner_->value(l_, arg.segment(lsa_.first, lsa_.second));
+    inner_->value(r_, arg.segment(rsa_.first, rsa_.second));
+    const LiegroupSpacePtr_t& space(inner_->outputSpace());
+    space->dDifference_dq1<pinocchio::DerivativeTimesInput>(
+        r_.vector(), l_.vector(), J.middleCols(lsd_.first, lsd_.second));
+    space->dDifference_dq0<pinocchio::DerivativeTimesInput>(
+        r_.vector(), l_.vector(), J.middleCols(rsd_.first, rsd_.second));
   }
 
   bool isEqual(const DifferentiableFunction& other) const {
-- 
2.43.0


From d7b669b8016e0d7e090f179a5c5c54d49806229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 21/31] fix: logarithm of half-turns about axes with components
 of both signs

---
 include/hpp/constraints/tools.hh | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/hpp/constraints/tools.hh b/include/hpp/constraints/tools.hh
index 45d472b..d6cce8e 100644
--- a/include/hpp/constraints/tools.hh
+++ b/include/hpp/constraints/tools.hh
@@ -83,12 +83,16 @@ inline void logSO3(const matrix3_t& R, value_type& theta,
     // method (Nominal case).
     const value_type cphi = cos(theta - PI);
     const value_type beta = theta * theta / (1 + cphi);
-    const value_type tmp0 = (R(0, 0) + cphi) * beta;
-    const value_type tmp1 = (R(1, 1) + cphi) * beta;
-    const value_type tmp2 = (R(2, 2) + cphi) * beta;
-    value(0) = (R(2, 1) > R(1, 2) ? 1 : -1) * (tmp0 > 0 ? sqrt(tmp0) : 0);
-    value(1) = (R(0, 2) > R(2, 0) ? 1 : -1) * (tmp1 > 0 ? sqrt(tmp1) : 0);
-    value(2) = (R(1, 0) > R(0, 1) ? 1 : -1) * (tmp2 > 0 ? sqrt(tmp2) : 0);
+    // The largest component comes from the diagonal, with the sign of the
+    // antisymmetric part. The others come from the symmetric part, so that they
+    // are right also when the antisymmetric part vanishes (half-turns).
+    int i = 0;
+    if (R(1, 1) > R(i, i)) i = 1;
+    if (R(2, 2) > R(i, i)) i = 2;
+    const int j = (i + 1) % 3, k = (i + 2) % 3;
+    value(i) = (R(k, j) > R(j, k) ? 1 : -1) * sqrt((R(i, i) + cphi) * beta);
+    value(j) = beta * (R(i, j) + R(j, i)) / (2 * value(i));
+    value(k) = beta * (R(i, k) + R(k, i)) / (2 * value(i));
   }
 }
 
-- 
2.43.0


From 6d65285bc1a956dcc6ae486b5c5518fa307865dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 22/31] fix: Jacobian of the explicit relative transformation
 when joint 2 has a parent

Pinocchio Jacobians are expressed in the frames of the joints. The terms of
the parent of joint 2 had the wrong frame, and the wrong sign for the angular
part.
---
 .../explicit/relative-transformation.hh       |  2 +-
 src/explicit/relative-transformation.cc       | 33 +++++++------------
 2 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/include/hpp/constraints/explicit/relative-transformation.hh b/include/hpp/constraints/explicit/relative-transformation.hh
index cc7af61..3658592 100644
--- a/include/hpp/constraints/explicit/relative-transformation.hh
+++ b/include/hpp/constraints/explicit/relative-transformation.hh
@@ -174,7 +174,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeTransformation
 
   // Tmp variables
   mutable vector_t qsmall_, q_;
-  mutable matrix_t tmpJac_, J2_parent_minus_J1_;
+  mutable matrix_t tmpJac_;
 
   RelativeTransformation() {}
   HPP_SERIALIZABLE();
diff --git a/src/explicit/relative-transformation.cc b/src/explicit/relative-transformation.cc
index 3a493fe..0b42102 100644
--- a/src/explicit/relative-transformation.cc
+++ b/src/explicit/relative-transformation.cc
@@ -173,17 +173,10 @@ void RelativeTransformation::impl_jacobian(matrixOut_t jacobian,
 
   static const JointJacobian_t Jabs;
   const JointJacobian_t& J1(absolute ? Jabs : joint1_->jacobian());
-  // const JointJacobian_t& J2_parent (parentJoint_->jacobian());
 
   const matrix3_t& R1(absolute ? matrix3_t::Identity().eval()
                                : joint1_->currentTransformation().rotation());
   const matrix3_t& R2(joint2_->currentTransformation().rotation());
-  const matrix3_t& R2_inParentFrame(
-      joint2_->positionInParentFrame().rotation());
-
-  const vector3_t& t1(absolute
-                          ? vector3_t::Zero().eval()
-                          : joint1_->currentTransformation().translation());
 
   matrix3_t cross1 = ::pinocchio::skew(
                 (R1 * F1inJ1_invF2inJ2_.translation()).eval()),
@@ -191,27 +184,23 @@ void RelativeTransformation::impl_jacobian(matrixOut_t jacobian,
   if (hasParent) {
     const vector3_t& t2_parent(
         parentJoint_->currentTransformation().translation());
-    cross2 = ::pinocchio::skew((t2_parent - t1).eval());
-
-    if (absolute)
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian();
-    else
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian() - J1;
-  } else {
-    cross2 = -::pinocchio::skew(t1);
-    // J2_parent_minus_J1_ = - J1;
+    const vector3_t& t2(joint2_->currentTransformation().translation());
+    cross2 = ::pinocchio::skew((t2 - t2_parent).eval());
   }
 
-  // Express velocity of J1 * M1/J1 * M2/J2^{-1} in J2_{parent}.
+  // Express velocity of J1 * M1/J1 * M2/J2^{-1} in J2.
   if (hasParent) {
     const matrix3_t& R2_parent(
         parentJoint_->currentTransformation().rotation());
     const JointJacobian_t& J2_parent(parentJoint_->jacobian());
 
+    // Jacobians are expressed in the frames of the joints.
     tmpJac_.noalias() =
-        (R2_inParentFrame.transpose() * R2_parent.transpose()) *
-        (cross1 * (omega(J2_parent_minus_J1_)) - cross2 * omega(J2_parent) -
-         trans(J2_parent_minus_J1_));
+        R2.transpose() *
+        ((cross2 * R2_parent) * omega(J2_parent) - R2_parent * trans(J2_parent));
+    if (!absolute)
+      tmpJac_.noalias() +=
+          R2.transpose() * ((-cross1 * R1) * omega(J1) + R1 * trans(J1));
     jacobian.topRows<3>() = inVel_.rview(tmpJac_);
   } else {
     if (absolute)
@@ -229,8 +218,8 @@ void RelativeTransformation::impl_jacobian(matrixOut_t jacobian,
     const JointJacobian_t& J2_parent(parentJoint_->jacobian());
 
     // J = p2RT2 * 0RTp2 * [ p2
-    tmpJac_.noalias() = (R2.transpose() * R2_parent) * omega(J2_parent);
-    if (!absolute) tmpJac_.noalias() -= (R2.transpose() * R1) * omega(J1);
+    tmpJac_.noalias() = -(R2.transpose() * R2_parent) * omega(J2_parent);
+    if (!absolute) tmpJac_.noalias() += (R2.transpose() * R1) * omega(J1);
     jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
   } else {
     if (absolute)
-- 
2.43.0


From 2ff32ca6abb648f059ce31d5f061599e800a47ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 23/31] fix: closest point to a segment was on the wrong side
 of its origin

---
 include/hpp/constraints/convex-shape.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index f74bd65..18a25ef 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -50,7 +50,7 @@ namespace constraints {
 /// closest point
 inline void closestPointToSegment(const vector3_t& P, const vector3_t& A,
                                   const vector3_t& v, vector3_t& B) {
-  vector3_t w = A - P;
+  vector3_t w = P - A;
   value_type c1, c2;
   c1 = v.dot(w);
   c2 = v.dot(v);
-- 
2.43.0


From d8dc83d23f6aa5707228dd65964ff99015c96287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 24/31] fix: stale direction and normal of a reversed shape of
 one or two points

---
 include/hpp/constraints/convex-shape.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index 18a25ef..f376ab9 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -231,6 +231,8 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShape {
 
   void init() {
     shapeDimension_ = Pts_.size();
+    Us_.clear();
+    Ns_.clear();
 
     switch (shapeDimension_) {
       case 0:
-- 
2.43.0


From e254da03dead25be8d2a1aaea49d150496bd2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 25/31] fix: frame of a shape aligned with a vector of the
 world is orthonormal

---
 include/hpp/constraints/convex-shape.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index f376ab9..4ffb699 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -365,7 +365,7 @@ struct HPP_CONSTRAINTS_DLLAPI ConvexShapeData {
                                             vector3_t yaxis) const {
     assert(cs.shapeDimension_ > 2);
     // Project vector onto the plane
-    yaxis = oMj_.actInv(yaxis);
+    yaxis = oMj_.rotation().transpose() * yaxis;
     vector3_t yproj = yaxis - yaxis.dot(cs.N_) * cs.N_;
     if (yproj.isZero())
       return cs.MinJoint_;
@@ -373,8 +373,8 @@ struct HPP_CONSTRAINTS_DLLAPI ConvexShapeData {
       Transform3s M;
       M.translation() = cs.C_;
       M.rotation().col(0) = cs.N_;
-      M.rotation().col(1) = yaxis;
-      M.rotation().col(2) = cs.N_.cross(yaxis);
+      M.rotation().col(1) = yproj.normalized();
+      M.rotation().col(2) = cs.N_.cross(M.rotation().col(1));
       return M;
     }
   }
-- 
2.43.0


From 3e49251486547ad820a21573a35f08158e64f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 26/31] fix: constant functions with different values compared
 equal

---
 include/hpp/constraints/affine-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/affine-function.hh b/include/hpp/constraints/affine-function.hh
index 616f6a6..04d7968 100644
--- a/include/hpp/constraints/affine-function.hh
+++ b/include/hpp/constraints/affine-function.hh
@@ -183,7 +183,7 @@ struct HPP_CONSTRAINTS_DLLAPI ConstantFunction : public DifferentiableFunction {
         dynamic_cast<const ConstantFunction&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (c_.vector() == castother.c_.vector()) return false;
+    if (c_.vector() != castother.c_.vector()) return false;
 
     return true;
   }
-- 
2.43.0


From ea0b714b97a144bb8af8329d091f3c46acee7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 27/31] fix: equality of stacks of functions depended on where
 they were evaluated

---
 include/hpp/constraints/differentiable-function-set.hh | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/hpp/constraints/differentiable-function-set.hh b/include/hpp/constraints/differentiable-function-set.hh
index 5a578ef..538e33f 100644
--- a/include/hpp/constraints/differentiable-function-set.hh
+++ b/include/hpp/constraints/differentiable-function-set.hh
@@ -131,9 +131,6 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (functions_ != castother.functions_) return false;
-    if (result_.size() != castother.result_.size()) return false;
-    for (std::size_t i = 0; i < result_.size(); i++)
-      if (result_[i] != castother.result_[i]) return false;
 
     return true;
   }
-- 
2.43.0


From 557ac85729d90186b7fcdafcd250acf5c77edd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 28/31] fix: constraints that differ by the mask compared equal

---
 src/implicit.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/implicit.cc b/src/implicit.cc
index 16a46fe..d8551a8 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -180,6 +180,7 @@ Implicit::Implicit(const Implicit& other)
 
 bool Implicit::isEqual(const Implicit& other, bool swapAndTest) const {
   if (comparison_ != other.comparison_) return false;
+  if (mask_ != other.mask_) return false;
   if (rhs_.size() != other.rhs_.size()) return false;
   if (function_ != other.function_ && *function_ != *other.function_)
     return false;
-- 
2.43.0


From 786aa165c88213c2f885e02d89df4c1b57ab4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 29/31] fix: relative center of mass functions with different
 references compared equal

---
 include/hpp/constraints/relative-com.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index f7428b1..b8c8377 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -111,6 +111,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
     if (robot_ != castother.robot_) return false;
     if (comc_ != castother.comc_) return false;
     if (joint_ != castother.joint_) return false;
+    if (reference_ != castother.reference_) return false;
     if (mask_ != castother.mask_) return false;
     if (nominalCase_ != castother.nominalCase_) return false;
 
-- 
2.43.0


From 5e73565cfffccb7e0087845a8b1cd2d1e092adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:42 +0000
Subject: [PATCH 30/31] fix: equality of contacts ignored the shapes of the
 object

---
 src/convex-shape-contact.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index e58dd9d..7d31bab 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -74,7 +74,12 @@ bool ConvexShapeContact::isEqual(const DifferentiableFunction& other) const {
   if (robot_ != castother.robot_) return false;
   if (objectConvexShapes_.size() != castother.objectConvexShapes_.size())
     return false;
+  if (floorConvexShapes_.size() != castother.floorConvexShapes_.size())
+    return false;
   for (std::size_t i = 0; i < objectConvexShapes_.size(); i++)
+    if (objectConvexShapes_[i] != castother.objectConvexShapes_[i])
+      return false;
+  for (std::size_t i = 0; i < floorConvexShapes_.size(); i++)
     if (floorConvexShapes_[i] != castother.floorConvexShapes_[i]) return false;
   return true;
 }
-- 
2.43.0


From ee51a690831b999276ddc9fab6ccb16036f74a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:02 +0000
Subject: [PATCH 31/31] fix: equality of functions compares joints and nested
 functions by value

Joints are handed out as new shared pointers by the robot: identical
functions compared different. Generic transformations compared neither
joints nor frames.
---
 .../hpp/constraints/active-set-differentiable-function.hh   | 2 +-
 include/hpp/constraints/com-between-feet.hh                 | 6 +++---
 include/hpp/constraints/convex-shape.hh                     | 2 +-
 include/hpp/constraints/differentiable-function-set.hh      | 4 +++-
 include/hpp/constraints/distance-between-bodies.hh          | 4 ++--
 .../hpp/constraints/distance-between-points-in-bodies.hh    | 4 ++--
 include/hpp/constraints/explicit/implicit-function.hh       | 2 +-
 include/hpp/constraints/explicit/relative-transformation.hh | 6 +++---
 include/hpp/constraints/function/difference.hh              | 2 +-
 include/hpp/constraints/function/of-parameter-subset.hh     | 2 +-
 include/hpp/constraints/fwd.hh                              | 6 ++++++
 include/hpp/constraints/generic-transformation.hh           | 4 ++++
 include/hpp/constraints/manipulability.hh                   | 2 +-
 include/hpp/constraints/relative-com.hh                     | 2 +-
 src/convex-shape-contact.cc                                 | 4 ++--
 src/explicit.cc                                             | 2 +-
 16 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/include/hpp/constraints/active-set-differentiable-function.hh b/include/hpp/constraints/active-set-differentiable-function.hh
index 6b0c5d5..2e7c666 100644
--- a/include/hpp/constraints/active-set-differentiable-function.hh
+++ b/include/hpp/constraints/active-set-differentiable-function.hh
@@ -87,7 +87,7 @@ class HPP_CONSTRAINTS_DLLAPI ActiveSetDifferentiableFunction
         dynamic_cast<const ActiveSetDifferentiableFunction&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (function_ != castother.function_) return false;
+    if (!sameObject(function_, castother.function_)) return false;
     if (intervals_ != castother.intervals_) return false;
 
     return true;
diff --git a/include/hpp/constraints/com-between-feet.hh b/include/hpp/constraints/com-between-feet.hh
index e336d8e..e6ff178 100644
--- a/include/hpp/constraints/com-between-feet.hh
+++ b/include/hpp/constraints/com-between-feet.hh
@@ -113,11 +113,11 @@ class HPP_CONSTRAINTS_DLLAPI ComBetweenFeet : public DifferentiableFunction {
     if (com_->centerOfMassComputation() !=
         castother.com_->centerOfMassComputation())
       return false;
-    if (left_->joint() != castother.left_->joint()) return false;
-    if (right_->joint() != castother.right_->joint()) return false;
+    if (!sameObject(left_->joint(), castother.left_->joint())) return false;
+    if (!sameObject(right_->joint(), castother.right_->joint())) return false;
     if (left_->local() != castother.left_->local()) return false;
     if (right_->local() != castother.right_->local()) return false;
-    if (jointRef_ != castother.jointRef_) return false;
+    if (!sameObject(jointRef_, castother.jointRef_)) return false;
     if (pointRef_ != castother.pointRef_) return false;
     if (mask_ != castother.mask_) return false;
 
diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index 4ffb699..014e7d8 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -172,7 +172,7 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShape {
     if (Us_ != other.Us_) return false;
     if (Ls_ != other.Ls_) return false;
     if (MinJoint_ != other.MinJoint_) return false;
-    if (joint_ != other.joint_) return false;
+    if (!sameObject(joint_, other.joint_)) return false;
     return true;
   }
   bool operator!=(ConvexShape const& other) const {
diff --git a/include/hpp/constraints/differentiable-function-set.hh b/include/hpp/constraints/differentiable-function-set.hh
index 538e33f..f7c6b8e 100644
--- a/include/hpp/constraints/differentiable-function-set.hh
+++ b/include/hpp/constraints/differentiable-function-set.hh
@@ -130,7 +130,9 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
         dynamic_cast<const DifferentiableFunctionSet&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (functions_ != castother.functions_) return false;
+    if (functions_.size() != castother.functions_.size()) return false;
+    for (std::size_t i = 0; i < functions_.size(); ++i)
+      if (!sameObject(functions_[i], castother.functions_[i])) return false;
 
     return true;
   }
diff --git a/include/hpp/constraints/distance-between-bodies.hh b/include/hpp/constraints/distance-between-bodies.hh
index 8d63fe6..8ec79cb 100644
--- a/include/hpp/constraints/distance-between-bodies.hh
+++ b/include/hpp/constraints/distance-between-bodies.hh
@@ -105,8 +105,8 @@ class HPP_CONSTRAINTS_DLLAPI DistanceBetweenBodies
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (robot_ != castother.robot_) return false;
-    if (joint1_ != castother.joint1_) return false;
-    if (joint2_ != castother.joint2_) return false;
+    if (!sameObject(joint1_, castother.joint1_)) return false;
+    if (!sameObject(joint2_, castother.joint2_)) return false;
     if (data_ != castother.data_) return false;
 
     return true;
diff --git a/include/hpp/constraints/distance-between-points-in-bodies.hh b/include/hpp/constraints/distance-between-points-in-bodies.hh
index fb7082e..1037451 100644
--- a/include/hpp/constraints/distance-between-points-in-bodies.hh
+++ b/include/hpp/constraints/distance-between-points-in-bodies.hh
@@ -114,8 +114,8 @@ class HPP_CONSTRAINTS_DLLAPI DistanceBetweenPointsInBodies
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (robot_ != castother.robot_) return false;
-    if (joint1_ != castother.joint1_) return false;
-    if (joint2_ != castother.joint2_) return false;
+    if (!sameObject(joint1_, castother.joint1_)) return false;
+    if (!sameObject(joint2_, castother.joint2_)) return false;
     if (point1_ != castother.point1_) return false;
     if (point2_ != castother.point2_) return false;
 
diff --git a/include/hpp/constraints/explicit/implicit-function.hh b/include/hpp/constraints/explicit/implicit-function.hh
index 1b319fc..c7fe3f9 100644
--- a/include/hpp/constraints/explicit/implicit-function.hh
+++ b/include/hpp/constraints/explicit/implicit-function.hh
@@ -95,7 +95,7 @@ class ImplicitFunction : public DifferentiableFunction {
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (robot_ != castother.robot_) return false;
-    if (inputToOutput_ != castother.inputToOutput_) return false;
+    if (!sameObject(inputToOutput_, castother.inputToOutput_)) return false;
     if (inputConfIntervals_.rows() != castother.inputConfIntervals_.rows())
       return false;
     if (outputConfIntervals_.rows() != castother.outputConfIntervals_.rows())
diff --git a/include/hpp/constraints/explicit/relative-transformation.hh b/include/hpp/constraints/explicit/relative-transformation.hh
index 3658592..d0b19c8 100644
--- a/include/hpp/constraints/explicit/relative-transformation.hh
+++ b/include/hpp/constraints/explicit/relative-transformation.hh
@@ -143,9 +143,9 @@ class HPP_CONSTRAINTS_DLLAPI RelativeTransformation
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (robot_ != castother.robot_) return false;
-    if (parentJoint_ != castother.parentJoint_) return false;
-    if (joint1_ != castother.joint1_) return false;
-    if (joint2_ != castother.joint2_) return false;
+    if (!sameObject(parentJoint_, castother.parentJoint_)) return false;
+    if (!sameObject(joint1_, castother.joint1_)) return false;
+    if (!sameObject(joint2_, castother.joint2_)) return false;
     if (frame1_ != castother.frame1_) return false;
     if (frame2_ != castother.frame2_) return false;
     if (inConf_.rows() != castother.inConf_.rows()) return false;
diff --git a/include/hpp/constraints/function/difference.hh b/include/hpp/constraints/function/difference.hh
index c280e9d..3d1200c 100644
--- a/include/hpp/constraints/function/difference.hh
+++ b/include/hpp/constraints/function/difference.hh
@@ -86,7 +86,7 @@ class HPP_CONSTRAINTS_LOCAL Difference
     const Difference& castother = dynamic_cast<const Difference&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (inner_ != castother.inner_) return false;
+    if (!sameObject(inner_, castother.inner_)) return false;
     if (lsa_ != castother.lsa_) return false;
     if (lsd_ != castother.lsd_) return false;
     if (rsa_ != castother.rsa_) return false;
diff --git a/include/hpp/constraints/function/of-parameter-subset.hh b/include/hpp/constraints/function/of-parameter-subset.hh
index da69135..fde269f 100644
--- a/include/hpp/constraints/function/of-parameter-subset.hh
+++ b/include/hpp/constraints/function/of-parameter-subset.hh
@@ -93,7 +93,7 @@ class HPP_CONSTRAINTS_DLLAPI OfParameterSubset : public DifferentiableFunction {
         dynamic_cast<const OfParameterSubset&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (g_ != castother.g_) return false;
+    if (!sameObject(g_, castother.g_)) return false;
     if (sa_ != castother.sa_) return false;
     if (sd_ != castother.sd_) return false;
 
diff --git a/include/hpp/constraints/fwd.hh b/include/hpp/constraints/fwd.hh
index 9358dbf..270da34 100644
--- a/include/hpp/constraints/fwd.hh
+++ b/include/hpp/constraints/fwd.hh
@@ -184,6 +184,12 @@ HPP_PREDEF_CLASS(Explicit);
 typedef shared_ptr<Explicit> ExplicitPtr_t;
 typedef shared_ptr<const Explicit> ExplicitConstPtr_t;
 
+/// Whether two pointers are both null or point to objects that are equal
+template <typename Pointer>
+inline bool sameObject(const Pointer& p1, const Pointer& p2) {
+  return p1 == p2 || (p1 && p2 && *p1 == *p2);
+}
+
 // Map to replace constraints by their copies when copying solvers
 typedef std::map<ImplicitPtr_t, ImplicitPtr_t> ConstraintReplacement_t;
 class ExplicitConstraintSet;
diff --git a/include/hpp/constraints/generic-transformation.hh b/include/hpp/constraints/generic-transformation.hh
index b578975..5823928 100644
--- a/include/hpp/constraints/generic-transformation.hh
+++ b/include/hpp/constraints/generic-transformation.hh
@@ -352,6 +352,10 @@ class HPP_CONSTRAINTS_DLLAPI GenericTransformation
     if (!DifferentiableFunction::isEqual(other)) return false;
     if (robot_ != castother.robot_) return false;
     if (mask_ != castother.mask_) return false;
+    if (!sameObject(joint1(), castother.joint1())) return false;
+    if (!sameObject(joint2(), castother.joint2())) return false;
+    if (frame1InJoint1() != castother.frame1InJoint1()) return false;
+    if (frame2InJoint2() != castother.frame2InJoint2()) return false;
 
     return true;
   }
diff --git a/include/hpp/constraints/manipulability.hh b/include/hpp/constraints/manipulability.hh
index 52efbbe..2d5b2d8 100644
--- a/include/hpp/constraints/manipulability.hh
+++ b/include/hpp/constraints/manipulability.hh
@@ -69,7 +69,7 @@ class HPP_CONSTRAINTS_DLLAPI Manipulability : public DifferentiableFunction {
         dynamic_cast<const Manipulability&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (function_ != castother.function_) return false;
+    if (!sameObject(function_, castother.function_)) return false;
     if (robot_ != castother.robot_) return false;
     if (cols_.cols() != castother.cols_.cols()) return false;
     if (J_ != castother.J_) return false;
diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index b8c8377..6e6cef9 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -110,7 +110,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
 
     if (robot_ != castother.robot_) return false;
     if (comc_ != castother.comc_) return false;
-    if (joint_ != castother.joint_) return false;
+    if (!sameObject(joint_, castother.joint_)) return false;
     if (reference_ != castother.reference_) return false;
     if (mask_ != castother.mask_) return false;
     if (nominalCase_ != castother.nominalCase_) return false;
diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index 7d31bab..bcb0a23 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -511,8 +511,8 @@ bool ConvexShapeContactHold::isEqual(
   const ConvexShapeContactHold& castother =
       dynamic_cast<const ConvexShapeContactHold&>(other);
   if (!DifferentiableFunction::isEqual(other)) return false;
-  if (constraint_ != castother.constraint_) return false;
-  if (complement_ != castother.complement_) return false;
+  if (!sameObject(constraint_, castother.constraint_)) return false;
+  if (!sameObject(complement_, castother.complement_)) return false;
   return true;
 }
 
diff --git a/src/explicit.cc b/src/explicit.cc
index 26b0b2c..876168a 100644
--- a/src/explicit.cc
+++ b/src/explicit.cc
@@ -128,7 +128,7 @@ bool Explicit::isEqual(const Implicit& other, bool swapAndTest) const {
   if (swapAndTest && !Implicit::isEqual(other, swapAndTest)) return false;
   try {
     const Explicit& castother = dynamic_cast<const Explicit&>(other);
-    if (inputToOutput_ != castother.inputToOutput_) return false;
+    if (!sameObject(inputToOutput_, castother.inputToOutput_)) return false;
     if (inputConf_ != castother.inputConf_) return false;
     if (outputConf_ != castother.outputConf_) return false;
     if (inputVelocity_ != castother.inputVelocity_) return false;
-- 
2.43.0

