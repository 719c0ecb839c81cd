From fb5fee9e862c5cdbeaf8215fbb242927f957fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:30 +0000
Subject: [PATCH 01/66] fix: creating the derivative of a subvariable must not
 reset the derivative of its supervariable

---
 src/Variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index c0e1965..8e1cdec 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -223,7 +223,9 @@ Variable::Variable(Variable * var, bool autoName)
     ss << "[" << shift_.tSize() << ":" << shift_.tSize() + size() - 1 << "]";
   }
   name_ = ss.str();
-  value_.setZero();
+  // the derivative of a subvariable shares its memory with the derivative of the supervariable
+  if(!isSubvariable())
+    value_.setZero();
 }
 
 VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space shift, bool autoName) const
-- 
2.43.0


From 9729f9775f477f495c50354d659f792b303d2e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:30 +0000
Subject: [PATCH 02/66] fix: shared_from_this on a subvariable must share the
 ownership of the subvariable itself

---
 src/Variable.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index 8e1cdec..4795634 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -268,19 +268,9 @@ Variable::Variable(make_shared_token, VariablePtr var, const Space & space, std:
 VariablePtr Variable::shared_from_this()
 {
   if(isBasePrimitive())
-  {
-    if(isSubvariable())
-      return {superVariable_->shared_from_this(), this};
-    else
-      return std::enable_shared_from_this<Variable>::shared_from_this();
-  }
+    return std::enable_shared_from_this<Variable>::shared_from_this();
   else
-  {
-    if(isSubvariable())
-      return {superVariable_->basePrimitive()->shared_from_this(), this};
-    else
-      return {basePrimitive()->shared_from_this(), this};
-  }
+    return {basePrimitive(), this};
 }
 
 } // namespace tvm
-- 
2.43.0


From d2361781906841acdf545f2b0e0d0d1b7b0f9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:30 +0000
Subject: [PATCH 03/66] fix: automatic name of the subvariable of a subvariable

---
 src/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index 4795634..9c4ca1b 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -244,7 +244,7 @@ VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space
   // Create a subvariable of the supervariable base primitive
   if(autoName)
   {
-    int start = base->spaceShift().rSize() + shift.rSize();
+    int start = shift_.rSize() + shift.rSize();
     std::stringstream ss;
     ss << base->name() << "[" << start << ":" << start + space.rSize() - 1 << "]";
     sub = std::make_shared<Variable>(make_shared_token{}, base, space, ss.str(), shift_ * shift);
-- 
2.43.0


From 4ebdc3e8b69b07441868f9a83b42a2211ed46c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 04/66] fix: self-assignment of a VariableVector must not empty
 it

---
 src/VariableVector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index 4081250..12d4324 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -14,8 +14,11 @@ VariableVector::VariableVector(const VariableVector & other) : VariableVector(ot
 
 VariableVector & VariableVector::operator=(const VariableVector & other)
 {
-  clear();
-  add(other.variables());
+  if(this != &other)
+  {
+    clear();
+    add(other.variables());
+  }
   return *this;
 }
 
-- 
2.43.0


From c37e759803df302914b567ea55d9fda831440246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:11 +0000
Subject: [PATCH 05/66] fix: VariableCountingVector with split must account for
 changes of count that do not change the union

---
 src/internal/VariableCountingVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index 29c09a4..661cfe1 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -18,7 +18,7 @@ bool VariableCountingVector::add(VariablePtr v)
   bool change = counterPair.first.add(start, dim);
   if(change)
     ++counterPair.second;
-  upToDate_ = upToDate_ && !change;
+  upToDate_ = upToDate_ && !change && !split_; // with split, the counts matter even when the union does not change
   return change;
 }
 
@@ -48,7 +48,7 @@ bool VariableCountingVector::remove(const Variable & v)
       counterPair.second += 10;
     }
   }
-  upToDate_ = upToDate_ && !change;
+  upToDate_ = upToDate_ && !change && !split_; // with split, the counts matter even when the union does not change
   return change;
 }
 
-- 
2.43.0


From 8f3135c2cb8a208b004e295f2af2f8af6d939b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:36 +0000
Subject: [PATCH 06/66] fix: iterating over a partition of an empty collection
 of variables

---
 include/tvm/internal/VariableVectorPartition.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tvm/internal/VariableVectorPartition.h b/include/tvm/internal/VariableVectorPartition.h
index 1515fd4..1d5b0f5 100644
--- a/include/tvm/internal/VariableVectorPartition.h
+++ b/include/tvm/internal/VariableVectorPartition.h
@@ -129,7 +129,12 @@ public:
     const VariableVector & partition_;
   };
 
-  iterator begin() { return {var_, partition_, 0}; }
+  iterator begin()
+  {
+    if(var_.begin() == var_.end()) // no variable to iterate over
+      return end();
+    return {var_, partition_, 0};
+  }
   iterator end() { return {var_, partition_, partition_.numberOfVariables()}; }
 
 private:
-- 
2.43.0


From 80fd074a87554811bbc43aee7412b0dac9093a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:33 +0000
Subject: [PATCH 07/66] fix: a multiple of the identity is not the identity

---
 src/internal/MatrixProperties.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 6ebc6e1..95922de 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -266,12 +266,16 @@ Shape operator-(const Shape & s)
 
 Shape operator*(double d, const Shape & s)
 {
-  if(d < 0)
-    return -s;
-  else if(d > 0)
+  if(d == 0)
+    return Shape::ZERO;
+  else if(d == 1)
     return s;
+  else if(d == -1)
+    return -s;
+  else if(s == Shape::IDENTITY || s == Shape::MINUS_IDENTITY)
+    return Shape::MULTIPLE_OF_IDENTITY;
   else
-    return Shape::ZERO;
+    return s;
 }
 
 Shape operator+(const Shape & s1, const Shape & s2)
-- 
2.43.0


From 6d0565405f5f4d3c412596eb81ba888fea92f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:33 +0000
Subject: [PATCH 08/66] fix: operations on MatrixProperties must not throw when
 the result is necessarily constant or invertible

---
 src/internal/MatrixProperties.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 95922de..49876c6 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -359,28 +359,37 @@ Shape operator*(const Shape & s1, const Shape & s2)
   }
 }
 
+namespace
+{
+/** Build the properties of the result of an operation, from the characteristics deduced separately for it.
+ * The shape and positiveness may imply the constness or invertibility, even if the operands do not.
+ */
+MatrixProperties makeProperties(const Shape & s, const Positiveness & p, const Constness & c, const Invertibility & i)
+{ return {s, p, Constness(c || deduceConstance(s)), Invertibility(i || deduceInvertibility(s, p))}; }
+} // namespace
+
 MatrixProperties operator-(const MatrixProperties & p)
-{ return {-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()}; }
+{ return makeProperties(-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()); }
 
 MatrixProperties operator*(double d, const MatrixProperties & p)
-{ return {d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()}; }
+{ return makeProperties(d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()); }
 
 MatrixProperties operator+(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
-          p1.invertibility() + p2.invertibility()};
+  return makeProperties(p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(),
+                        p1.constness() + p2.constness(), p1.invertibility() + p2.invertibility());
 }
 
 MatrixProperties operator-(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
-          p1.invertibility() - p2.invertibility()};
+  return makeProperties(p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(),
+                        p1.constness() - p2.constness(), p1.invertibility() - p2.invertibility());
 }
 
 MatrixProperties operator*(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
-          p1.invertibility() * p2.invertibility()};
+  return makeProperties(p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(),
+                        p1.constness() * p2.constness(), p1.invertibility() * p2.invertibility());
 }
 
 } // namespace internal
-- 
2.43.0


From 6e723b4bf6b9ec67a9d02d1c36197db097a93efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 09/66] fix: removing a variable from a function through
 another object representing it

---
 src/internal/FirstOrderProvider.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/internal/FirstOrderProvider.cpp b/src/internal/FirstOrderProvider.cpp
index a89497b..c4b83d1 100644
--- a/src/internal/FirstOrderProvider.cpp
+++ b/src/internal/FirstOrderProvider.cpp
@@ -58,7 +58,12 @@ void FirstOrderProvider::addVariable(const VariableVector & vv, bool linear)
 
 void FirstOrderProvider::removeVariable(VariablePtr v)
 {
-  variables_.remove(*v);
+  // v can be a different object than the one that was added, yet represent the same variable.
+  int i = variables_.indexOf(*v);
+  if(i < 0)
+    throw std::runtime_error("[FirstOrderProvider::removeVariable] Variable " + v->name() + " is not present.");
+  v = variables_[i];
+  variables_.remove(i);
   jacobian_.erase(v.get());
   linear_.erase(v.get());
   removeVariable_(v);
-- 
2.43.0


From 402eb55e2f266d7f772aa66005769dd6cef41d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 10/66] fix: a variable given several times to a
 BasicLinearConstraint must have its matrices summed

---
 src/constraint/BasicLinearConstraint.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/constraint/BasicLinearConstraint.cpp b/src/constraint/BasicLinearConstraint.cpp
index 241c4f1..81510c8 100644
--- a/src/constraint/BasicLinearConstraint.cpp
+++ b/src/constraint/BasicLinearConstraint.cpp
@@ -206,9 +206,18 @@ void BasicLinearConstraint::add(const Eigen::MatrixXd & A, VariablePtr x)
     throw std::runtime_error("Matrix A doesn't have coherent row size.");
   if(A.cols() != x->size())
     throw std::runtime_error("Matrix A doesn't have its column size coherent with its corresponding variable.");
-  addVariable(x, true);
-  jacobian_.at(x.get()) = A;
-  jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  if(variables().contains(*x))
+  {
+    auto J = jacobian_.at(x.get(), tvm::utils::internal::with_sub{});
+    J += A;
+    J.properties({tvm::internal::MatrixProperties::Constness(true)});
+  }
+  else
+  {
+    addVariable(x, true);
+    jacobian_.at(x.get()) = A;
+    jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  }
 }
 
 } // namespace constraint
-- 
2.43.0


From 8d16278a004573e21ebd7b2608af747aa5a959c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:43 +0000
Subject: [PATCH 11/66] fix: JDot with respect to a subvariable of a variable
 in a non-Euclidean space

---
 include/tvm/function/abstract/Function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/function/abstract/Function.h b/include/tvm/function/abstract/Function.h
index 81deda5..325b4b8 100644
--- a/include/tvm/function/abstract/Function.h
+++ b/include/tvm/function/abstract/Function.h
@@ -89,7 +89,7 @@ protected:
   // cache
   Eigen::VectorXd velocity_;
   Eigen::VectorXd normalAcceleration_;
-  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot> JDot_;
+  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot, true> JDot_;
 
 private:
   // we retain the variables' derivatives shared_ptr to ensure the reference is never lost
-- 
2.43.0


From 916314c004c5795b5a6f3dfc0ac16b1ca9f016be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:32 +0000
Subject: [PATCH 12/66] fix: automatic damping for a matrix stiffness gain must
 be critical

---
 src/task_dynamics/ProportionalDerivative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 08b62f1..268140c 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -51,7 +51,7 @@ ProportionalDerivative::ProportionalDerivative(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 std::unique_ptr<abstract::TaskDynamicsImpl> ProportionalDerivative::impl_(FunctionPtr f,
@@ -152,7 +152,7 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 void ProportionalDerivative::Impl::checkGainSize(double) const
-- 
2.43.0


From 8bd6a1ce9297088ea59db625dfbffd0745d4bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:37 +0000
Subject: [PATCH 13/66] fix: setting a matrix stiffness gain with automatic
 damping must set the stiffness gain

---
 src/task_dynamics/ProportionalDerivative.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 268140c..d6658d9 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -152,6 +152,7 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
+  kp_ = kp;
   kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
-- 
2.43.0


From 877fcb0123653aeecdee76f56f1d6700fb5f7051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:22 +0000
Subject: [PATCH 14/66] fix: a non-square matrix gain must be refused by
 Proportional

---
 src/task_dynamics/Proportional.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 374d89b..57ae9a5 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -29,8 +29,8 @@ Proportional::Impl::Impl(FunctionPtr f, constraint::Type t, const Eigen::VectorX
 : TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp)
 {
   if((kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() != f->size())   // Diagonal gain
-     || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
-         && mpark::get<Eigen::MatrixXd>(kp).rows() != f->size()))
+     || (kp.index() == 2 && (mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
+                             || mpark::get<Eigen::MatrixXd>(kp).rows() != f->size())))
   {
     throw std::runtime_error("[task_dynamics::Proportional::Impl] Gain and function have incompatible sizes.");
   }
-- 
2.43.0


From 9133e9effee4ac98ecd9af4b06ca5f517d95af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 15/66] fix: a cycle that is not reachable from a root of the
 dependency graph must be reported

---
 src/graph/DependencyGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph/DependencyGraph.cpp b/src/graph/DependencyGraph.cpp
index 898c3f5..1420593 100644
--- a/src/graph/DependencyGraph.cpp
+++ b/src/graph/DependencyGraph.cpp
@@ -316,6 +316,12 @@ std::pair<std::vector<size_t>, DependencyGraph::DisjointSet> DependencyGraph::or
         "[DependencyGraph::Order] Try to order a non-empty graph with no root. It contains at least one cycle.");
   }
 
+  // Nodes that can not be reached from any root are part of (or only accessible from) a cycle.
+  if(ret.first.size() != n)
+  {
+    throw std::logic_error("[DependencyGraph::Order] The graph contains a cycle");
+  }
+
   return ret;
 }
 
-- 
2.43.0


From 4bb15b8629422c9abdd1676d4d184024404abfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:45 +0000
Subject: [PATCH 16/66] fix: all the outputs of an input dependency must be
 checked and recorded, not only the first one

---
 include/tvm/graph/abstract/Node.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/graph/abstract/Node.hpp b/include/tvm/graph/abstract/Node.hpp
index 9c5a1a6..e73ebed 100644
--- a/include/tvm/graph/abstract/Node.hpp
+++ b/include/tvm/graph/abstract/Node.hpp
@@ -144,8 +144,8 @@ void Node<T>::addInputDependency(EnumU u, std::shared_ptr<S> source, EnumO i, Ar
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, source.get(), i, args...);
 }
@@ -161,8 +161,8 @@ void Node<T>::addInputDependency(EnumU u, S & source, EnumO i, Args... args)
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, &source, i, args...);
 }
-- 
2.43.0


From 86ccf030da3ca2a804556f81f4bbe25eba68efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:10 +0000
Subject: [PATCH 17/66] fix: a cycle of direct dependencies must be reported
 instead of recursing endlessly

---
 src/graph/CallGraph.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/graph/CallGraph.cpp b/src/graph/CallGraph.cpp
index c8dfdb2..6891185 100644
--- a/src/graph/CallGraph.cpp
+++ b/src/graph/CallGraph.cpp
@@ -3,6 +3,8 @@
 #include <tvm/graph/CallGraph.h>
 #include <tvm/graph/internal/Logger.h>
 
+#include <stdexcept>
+
 #define TVM_GRAPH_LOG_ADD_GRAPH_OUTPUTS(graph, inputs) internal::Logger::logger().addGraphOutput(graph, inputs.get());
 
 namespace tvm
@@ -39,9 +41,16 @@ void CallGraph::clear()
 
 std::vector<int> CallGraph::addOutput(abstract::Outputs * source, int output)
 {
+  // Marks an output whose direct dependencies are being followed
+  static const std::vector<int> inProgress = {-1};
+
   std::intptr_t ptr = reinterpret_cast<std::intptr_t>(source);
   if(visited_.count(ptr) && visited_[ptr].count(output))
   {
+    if(visited_[ptr][output] == inProgress)
+    {
+      throw std::logic_error("[CallGraph::addOutput] The direct dependencies contain a cycle");
+    }
     return visited_[ptr][output];
   }
   std::vector<int> callId = {};
@@ -57,6 +66,7 @@ std::vector<int> CallGraph::addOutput(abstract::Outputs * source, int output)
     }
     else if(node->directDependencies_.count(output))
     {
+      visited_[ptr][output] = inProgress;
       const auto & p = node->directDependencies_[output];
       callId = addOutput(p.first, p.second);
     }
-- 
2.43.0


From 596160d9049bdab9f6dbd7f25890ab73a9d69f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:25 +0000
Subject: [PATCH 18/66] fix: the infinite side of a one-sided constraint must
 follow the right-hand side convention of a double-sided target

---
 include/tvm/scheme/internal/Assignment.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.hpp b/include/tvm/scheme/internal/Assignment.hpp
index d231417..8bfeb14 100644
--- a/include/tvm/scheme/internal/Assignment.hpp
+++ b/include/tvm/scheme/internal/Assignment.hpp
@@ -242,16 +242,22 @@ inline void Assignment::addVectorAssignment(const From & f,
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createAssignment<Eigen::VectorXd, A>(d, to, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createMultiplicationAssignment<Eigen::VectorXd, A>(d, to, D, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
-- 
2.43.0


From 1f5f41a09c17ac73f6c28ac0c0dc5722783f8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:25 +0000
Subject: [PATCH 19/66] fix: a change of the scalar weight alone must be taken
 into account together with an anisotropic weight

---
 src/scheme/Assignment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 70b6b5d..ecf7079 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -96,7 +96,8 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
     data_->scalarWeight_ = std::sqrt(requirements_->weight().value()) * scalarizationWeight_;
     data_->minusScalarWeight_ = -data_->scalarWeight_;
   }
-  if(vector)
+  // The scalar weight is part of the vector one
+  if(vector || (scalar && !useDefaultAnisotropicWeight_))
   {
     if(!requirements_->anisotropicWeight().isDefault()
        && requirements_->anisotropicWeight().value().size() != target_.size())
-- 
2.43.0


From beff5df6f31b098b9928d6ad6a2d9a49facf51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:25 +0000
Subject: [PATCH 20/66] fix: the size of an anisotropic weight is the size of
 the constraint, even when it is split in two on the target

---
 src/scheme/Assignment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index ecf7079..93e774c 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -100,7 +100,7 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
   if(vector || (scalar && !useDefaultAnisotropicWeight_))
   {
     if(!requirements_->anisotropicWeight().isDefault()
-       && requirements_->anisotropicWeight().value().size() != target_.size())
+       && requirements_->anisotropicWeight().value().size() != source_->size())
       throw std::runtime_error("[Assignment::onUpdateWeights] Anisotropic weight has not the correct size.");
 
     if(useDefaultAnisotropicWeight_ && !requirements_->anisotropicWeight().isDefault()
-- 
2.43.0


From adbce24308fd9521e745e0327594fe10b8aa7eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:58 +0000
Subject: [PATCH 21/66] fix: the assignment of a subvariable's matrix must keep
 this variable alive

---
 include/tvm/scheme/internal/MatrixAssignment.h | 2 +-
 src/scheme/Assignment.cpp                      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/scheme/internal/MatrixAssignment.h b/include/tvm/scheme/internal/MatrixAssignment.h
index 1ac89d1..1f3347c 100644
--- a/include/tvm/scheme/internal/MatrixAssignment.h
+++ b/include/tvm/scheme/internal/MatrixAssignment.h
@@ -25,7 +25,7 @@ public:
   using MatrixFunction = MatrixRef (AssignmentTarget::*)(int, int) const;
 
   CompiledAssignmentWrapper<Eigen::MatrixXd> assignment;
-  Variable * x;
+  VariablePtr x;
   Range colRange;
   MatrixFunction getTargetMatrix;
 
diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 93e774c..d7ac8e2 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -418,7 +418,7 @@ void Assignment::addMatrixAssignment(Variable & x, MatrixFunction M, const Range
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = createAssignment<Eigen::MatrixXd, AssignType::COPY>(from, to, flip);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x.shared_from_this(), range, M});
 }
 
 void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variables,
@@ -460,7 +460,7 @@ void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variabl
     // - use CUSTOM multiplications
     // - in particular use the nullspace custom multiplication for variable z
     // when appropriate.
-    matrixSubstitutionAssignments_.push_back({w, xi.get(), range, M});
+    matrixSubstitutionAssignments_.push_back({w, xi, range, M});
   }
 }
 
@@ -514,7 +514,7 @@ void Assignment::addZeroAssignment(Variable & x, MatrixFunction M, const Range &
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = CompiledAssignmentWrapper<Eigen::MatrixXd>::make<COPY, NONE, IDENTITY, ZERO>(to);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x.shared_from_this(), range, M});
 }
 
 void Assignment::addAssignments(const VariableVector & variables,
-- 
2.43.0


From 8ef9e86bba2afac2d59cd643e1225473cea1b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:06 +0000
Subject: [PATCH 22/66] fix: several variables of a constraint can be
 substituted by expressions of intersecting variables

---
 src/scheme/Assignment.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index d7ac8e2..b4a9e02 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -9,6 +9,8 @@
 #include <tvm/internal/VariableVectorPartition.h>
 #include <tvm/scheme/internal/helpers.h>
 
+#include <algorithm>
+
 namespace tvm::scheme::internal
 {
 using constraint::RHS;
@@ -556,14 +558,18 @@ void Assignment::addAssignments(const VariableVector & variables,
   }
 
   // For all variables that are substituted into but are not part of the source variables,
-  // we set the corresponding matrix block to zero.
-  VariableVector substitutedInto;
+  // we set the corresponding matrix block to zero. (These variables might intersect each other)
+  std::vector<VariablePtr> substitutedInto;
   for(const auto & x : xcp)
   {
     int i = xs.indexOf(*x);
     if(i >= 0) // x needs to be substituted
     {
-      substitutedInto.add(variableSubstitutions_[static_cast<int>(i)]->variables());
+      for(const auto & y : variableSubstitutions_[static_cast<int>(i)]->variables())
+      {
+        if(std::find(substitutedInto.begin(), substitutedInto.end(), y) == substitutedInto.end())
+          substitutedInto.push_back(y);
+      }
     }
   }
   for(const auto & x : substitutedInto)
-- 
2.43.0


From 47e6093c1b514dee2364833da5371b3a2994f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:06 +0000
Subject: [PATCH 23/66] fix: dangling reference to the properties of a bound's
 jacobian

---
 src/scheme/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/helpers.cpp b/src/scheme/helpers.cpp
index 922e813..5df6ce7 100644
--- a/src/scheme/helpers.cpp
+++ b/src/scheme/helpers.cpp
@@ -130,7 +130,7 @@ bool canBeUsedAsBound(const ConstraintPtr & c,
         assert(false);
     }
 
-    const auto & p = c->jacobian(*c->variables()[0]).properties();
+    const auto p = c->jacobian(*c->variables()[0]).properties();
     auto it = std::find(x.begin(), x.end(), c->variables()[0]);
     if(it == x.end())
     {
-- 
2.43.0


From de8d663ec309c6a5446f632f2e0023c17dd434af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:16 +0000
Subject: [PATCH 24/66] fix: a bound assigned to a one-sided bound target must
 be written in it

---
 src/scheme/Assignment.cpp       | 18 +++++-------------
 src/scheme/AssignmentTarget.cpp |  2 +-
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index b4a9e02..3badb1a 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -609,12 +609,7 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
 {
   auto J = source_->jacobian(*variable);
   bool gt = target_.constraintType() == Type::GREATER_THAN;
-  VectorFunction v;
-
-  if(gt)
-    v = &AssignmentTarget::l;
-  else
-    v = &AssignmentTarget::u;
+  VectorFunction v = &AssignmentTarget::b;
 
   if(substitutedVariables_.contains(*variable))
   {
@@ -633,13 +628,10 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
     else if(J.properties().isMinusIdentity())
     {
       assert(target_.constraintType() != source_->type());
-      if(J.properties().isIdentity())
-      {
-        if(first)
-          addVectorAssignment(f, v, true);
-        else
-          gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
-      }
+      if(first)
+        addVectorAssignment(f, v, true);
+      else
+        gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
     }
     else
     {
diff --git a/src/scheme/AssignmentTarget.cpp b/src/scheme/AssignmentTarget.cpp
index f2b8e9b..17a18e7 100644
--- a/src/scheme/AssignmentTarget.cpp
+++ b/src/scheme/AssignmentTarget.cpp
@@ -39,7 +39,7 @@ AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef l, VectorRef u)
 {}
 
 AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef lu, constraint::Type ct)
-: targetType_(TargetType::Linear), cstrType_(ct), range_(range), b_(lu)
+: targetType_(TargetType::Linear), cstrType_(ct), constraintRhs_(constraint::RHS::AS_GIVEN), range_(range), b_(lu)
 {
   if(!(ct == constraint::Type::GREATER_THAN || ct == constraint::Type::LOWER_THAN))
   {
-- 
2.43.0


From 4bb4cc065d7c52caac68116f3dd1b3e540135b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:16 +0000
Subject: [PATCH 25/66] fix: updating the target of a bound with diagonal
 jacobian must not touch its temporary vectors

---
 src/scheme/Assignment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 3badb1a..51e5242 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -75,7 +75,11 @@ void Assignment::onUpdatedTarget()
   for(auto & a : matrixSubstitutionAssignments_)
     a.updateTarget(target_);
   for(auto & a : vectorAssignments_)
-    a.assignment.to((target_.*a.getTargetVector)());
+  {
+    // Assignments to temporary vectors have no target to update
+    if(a.getTargetVector)
+      a.assignment.to((target_.*a.getTargetVector)());
+  }
   for(auto & a : vectorSubstitutionAssignments_)
     a.assignment.to((target_.*a.getTargetVector)());
 }
-- 
2.43.0


From 8c4a542fe8dad7169b20021c9c8c5c22b20543ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:56 +0000
Subject: [PATCH 26/66] fix: zero rows of a diagonal substitution must be read
 where they are in the matrix

---
 include/tvm/hint/internal/DiagonalCalculator.h | 9 +++++----
 src/hint/DiagonalCalculator.cpp                | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/tvm/hint/internal/DiagonalCalculator.h b/include/tvm/hint/internal/DiagonalCalculator.h
index 2212c17..0c7c40e 100644
--- a/include/tvm/hint/internal/DiagonalCalculator.h
+++ b/include/tvm/hint/internal/DiagonalCalculator.h
@@ -50,10 +50,11 @@ public:
 
     Eigen::DenseIndex first_;
     Eigen::DenseIndex size_;
-    std::vector<Eigen::DenseIndex> nnz_;   // indices of the non-zero rows
-    std::vector<Eigen::DenseIndex> innz_;  // indices of the non-zero rows in the resulting matrix
-    std::vector<Eigen::DenseIndex> cnnz_;  // complementary to nnz in [0:col-1]
-    std::vector<Eigen::DenseIndex> zeros_; // indices of the zero rows
+    std::vector<Eigen::DenseIndex> nnz_;    // indices of the non-zero rows
+    std::vector<Eigen::DenseIndex> innz_;   // indices of the non-zero rows in the resulting matrix
+    std::vector<Eigen::DenseIndex> cnnz_;   // complementary to nnz in [0:col-1]
+    std::vector<Eigen::DenseIndex> zeros_;  // indices of the zero rows
+    std::vector<Eigen::DenseIndex> izeros_; // indices of the zero rows in the resulting matrix
 
     Eigen::VectorXd inverse_;
   };
diff --git a/src/hint/DiagonalCalculator.cpp b/src/hint/DiagonalCalculator.cpp
index 88005e2..52ec456 100644
--- a/src/hint/DiagonalCalculator.cpp
+++ b/src/hint/DiagonalCalculator.cpp
@@ -225,7 +225,7 @@ void DiagonalCalculator::Impl::premultiplyByASharpAndSTranspose_(MatrixRef outA,
   // multiplying by S^T
   for(size_t i = 0; i < zeros_.size(); ++i)
   {
-    outS.row(static_cast<DenseIndex>(i)) = in.row(zeros_[i]);
+    outS.row(static_cast<DenseIndex>(i)) = in.row(izeros_[i]);
   }
 }
 
@@ -275,6 +275,7 @@ void DiagonalCalculator::Impl::build()
     }
     else if(appearZero[i])
     {
+      izeros_.push_back(k);
       ++k;
     }
   }
-- 
2.43.0


From 21765d9a7f19d7b4e21e51d5e93ec9a51f901442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:03 +0000
Subject: [PATCH 27/66] fix: a range of rows that does not fit in the matrix
 must be refused by DiagonalCalculator

---
 src/hint/DiagonalCalculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hint/DiagonalCalculator.cpp b/src/hint/DiagonalCalculator.cpp
index 52ec456..e025fe5 100644
--- a/src/hint/DiagonalCalculator.cpp
+++ b/src/hint/DiagonalCalculator.cpp
@@ -123,6 +123,10 @@ DiagonalCalculator::Impl::Impl(const std::vector<LinearConstraintPtr> & cstr,
   {
     size_ = x.front()->size() - first;
   }
+  if(first + size_ > n())
+  {
+    throw std::runtime_error("Some indices are too large for the substitution considered");
+  }
   if(size_ != rank)
   {
     throw std::runtime_error("The number of non-zero rows is not consistent with the rank.");
-- 
2.43.0


From 958266e6bde92f88764556af99fe66459b4ea3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:57 +0000
Subject: [PATCH 28/66] fix: account for the parts of the substituted variables
 present in a constraint

---
 src/hint/SubstitutionCalculatorImpl.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hint/SubstitutionCalculatorImpl.cpp b/src/hint/SubstitutionCalculatorImpl.cpp
index d21121b..6e7d126 100644
--- a/src/hint/SubstitutionCalculatorImpl.cpp
+++ b/src/hint/SubstitutionCalculatorImpl.cpp
@@ -4,6 +4,8 @@
 
 #include <tvm/Variable.h>
 #include <tvm/constraint/abstract/LinearConstraint.h>
+#include <tvm/internal/VariableCountingVector.h>
+#include <tvm/internal/VariableVectorPartition.h>
 
 namespace
 {
@@ -155,7 +157,11 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
     for(auto c : cstr)
     {
       int mi = c->size();
-      for(auto v : variables_.variables())
+      // c might depend on a part of a variable only, hence the partition.
+      tvm::internal::VariableCountingVector partition(true);
+      partition.add(variables_);
+      partition.add(c->variables());
+      for(const auto & v : tvm::internal::VariableVectorPartition(variables_, partition))
       {
         if(c->variables().contains(*v))
         {
@@ -171,9 +177,9 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
   constant_ = true;
   for(const auto & c : constraints_)
   {
-    for(const auto & v : variables_.variables())
+    for(const auto & v : c->variables())
     {
-      if(c->variables().contains(*v))
+      if(variables_.intersects(*v))
       {
         constant_ &= c->jacobian(*v).properties().isConstant();
       }
-- 
2.43.0


From e1f32e150e559e98084e04506cd51893972f9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:35 +0000
Subject: [PATCH 29/66] fix: Substitutions::substitute handles several
 substituted parts of a variable

---
 src/hint/Substitutions.cpp | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index d1f6a76..cb9ad17 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -156,35 +156,33 @@ const std::vector<VariablePtr> & Substitutions::otherVariables() const { return
 
 VariableVector Substitutions::substitute(const VariablePtr & x) const
 {
-  auto it =
-      std::find_if(variables_.begin(), variables_.end(), [&x](const VariablePtr & v) { return v->intersects(*x); });
-  if(it == variables_.end()) // no substitution of var
-  {
-    VariableVector v({x});
-    return v;
-  }
-  else // substitution of var
+  tvm::internal::VariableCountingVector vcv;
+  vcv.add(x);
+  std::vector<size_t> substituted; // all the substitutions that are parts of x
+  for(size_t i = 0; i < variables_.size(); ++i)
   {
-    const auto & f = varSubstitutions_[static_cast<size_t>(it - variables_.begin())];
-    if(*x == **it) // substitution by a full variable
+    const auto & v = variables_[i];
+    if(*x == *v) // substitution by a full variable
     {
-      return f->variables();
+      return varSubstitutions_[i]->variables();
     }
-    else if(x->contains(**it)) // part of x should be substituted
+    else if(x->contains(*v)) // part of x should be substituted
     {
-      tvm::internal::VariableCountingVector vcv;
-      vcv.add(x);
-      vcv.remove(*it);
-      vcv.add(f->variables());
-      return vcv.variables();
+      vcv.remove(v);
+      substituted.push_back(i);
     }
-    else
+    else if(v->intersects(*x))
     {
       throw std::runtime_error("[Substitutions::substitute] Variable " + x->name()
-                               + " intersect but is not contained by a variable being substituted (" + (*it)->name()
+                               + " intersect but is not contained by a variable being substituted (" + v->name()
                                + "). Variables in the subsitution do not a fine enough level of granularity.");
     }
   }
+  for(auto i : substituted)
+  {
+    vcv.add(varSubstitutions_[i]->variables());
+  }
+  return vcv.variables();
 }
 
 Substitution const * Substitutions::getSubstitutionFor(const constraint::abstract::LinearConstraint & cstr)
-- 
2.43.0


From 76a16644423542eecb7a2be9796c31d52db4cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:03 +0000
Subject: [PATCH 30/66] fix: Substitutions::finalize forgets the nullspace
 variables of the previous call

---
 src/hint/Substitutions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index cb9ad17..b77d505 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -90,6 +90,7 @@ void Substitutions::finalize()
   // Retrieve all the variables, functions and constraints
   variables_.clear();
   varSubstitutions_.clear();
+  additionalVariables_.clear();
   additionalConstraints_.clear();
   otherVariables_.clear();
   for(const auto & u : units_)
-- 
2.43.0


From df6e1450fe8021a6edb1998f6dfc8e5c3b8612fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:51 +0000
Subject: [PATCH 31/66] fix: zero right-hand sides in SubstitutionUnit are
 tracked per constraint and per substitution

---
 include/tvm/hint/internal/SubstitutionUnit.h | 2 +-
 src/hint/SubstitutionUnit.cpp                | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tvm/hint/internal/SubstitutionUnit.h b/include/tvm/hint/internal/SubstitutionUnit.h
index f8be8d0..3dc5415 100644
--- a/include/tvm/hint/internal/SubstitutionUnit.h
+++ b/include/tvm/hint/internal/SubstitutionUnit.h
@@ -146,7 +146,7 @@ private:
    * in \p constraints_.
    */
   Eigen::VectorXd c_;
-  /** cIsZero_[i] is true if the value of u corresponding to x_[i] is zero.*/
+  /** cIsZero_[i] is true if the value of c corresponding to constraints_[i] is zero.*/
   std::vector<bool> cIsZero_;
   /** All the matrices M_{i,j} assembled, where \p i corresponds to the i-th
    * variables in \p x_ and \p j corresponds to the j-th variable in \p y_.
diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index ed52975..2b69d70 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -180,7 +180,7 @@ void SubstitutionUnit::update()
 
         // c_i -= A{il}*u_l
         c_.segment(m + mk, mki).noalias() -= A * u_.segment(rx.start, rx.dim);
-        cIsZero_[i] = cIsZero_[i] && uIsZero_[l];
+        cIsZero_[i] = cIsZero_[i] && uIsZero_[x2sub_[l]];
       }
       cZero = cZero && cIsZero_[i];
       mk += mki;
@@ -318,7 +318,6 @@ void SubstitutionUnit::scanSubstitutions()
       ni += v->size();
       XYdependencies_.push_back({});
       XZdependencies_.push_back({});
-      cIsZero_.push_back(false);
     }
     int mi = 0;
     for(const auto & c : s.constraints())
@@ -327,6 +326,7 @@ void SubstitutionUnit::scanSubstitutions()
       constraints_.push_back(c);
       constraintsY_.push_back({});
       CXdependencies_.push_back({});
+      cIsZero_.push_back(false);
       mi += c->size();
       for(const auto & v : tvm::internal::VariableVectorPartition(c->variables(), partition))
       {
-- 
2.43.0


From 4111e87a83ce918f85c2b67d6d9946cf9ac1d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 32/66] fix: WeightedLeastSquares accepts the priority levels
 it emulates by scalarization

---
 src/scheme/WeightedLeastSquares.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 990a7a6..94d5bcc 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -18,9 +18,11 @@ namespace scheme
 using namespace internal;
 using VET = requirements::ViolationEvaluationType;
 
-const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {2,
-                                                                    {{0, {true, {VET::L2}}}, {1, {false, {VET::L2}}}},
-                                                                    true};
+// The general level is for the levels emulated by scalarization
+const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {
+    2,
+    {{0, {true, {VET::L2}}}, {1, {false, {VET::L2}}}, {GeneralLevel, {false, {VET::L2}}}},
+    true};
 
 bool WeightedLeastSquares::solve_(const LinearizedControlProblem & problem,
                                   internal::ProblemComputationData * data) const
-- 
2.43.0


From 1b71a44a68d1ea2921299b3788e905edfc30efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:10 +0000
Subject: [PATCH 33/66] fix: building and updating a weighted least-squares
 problem with auto-damping

---
 src/scheme/WeightedLeastSquares.cpp | 5 ++++-
 src/solver/LeastSquareSolver.cpp    | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 94d5bcc..e9be289 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -52,7 +52,10 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     // If some events require to rebuild the data, we skip all other events.
     for(const auto & e : memory->events())
     {
-      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
+      // With auto-damping, adding or removing a task may change the need for a minimum norm objective or its size.
+      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval
+         || (options_.autoDamping().value()
+             && (e.type() == EventType::TaskAddition || e.type() == EventType::TaskRemoval)))
       {
         resetComputationData(problem, memory);
         return;
diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 433a135..98004ad 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -134,6 +134,7 @@ void LeastSquareSolver::setMinimumNorm()
     throw std::runtime_error("[LeastSquareSolver]: attempting to add an objective without calling startBuild first");
   }
   setMinimumNorm_();
+  objSize_ = nObj_;
 }
 
 bool LeastSquareSolver::solve()
-- 
2.43.0


From 0c5f75275586c0b9a1804204a9ca767bd5769f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:39 +0000
Subject: [PATCH 34/66] fix: minimum norm objective for QLD and Quadprog with
 the cholesky option

---
 src/solver/QLDLeastSquareSolver.cpp      | 3 ++-
 src/solver/QuadprogLeastSquareSolver.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/QLDLeastSquareSolver.cpp b/src/solver/QLDLeastSquareSolver.cpp
index 48ce27a..6696282 100644
--- a/src/solver/QLDLeastSquareSolver.cpp
+++ b/src/solver/QLDLeastSquareSolver.cpp
@@ -104,7 +104,8 @@ void QLDLeastSquareSolver::addObjective_(LinearConstraintPtr cstr, SolvingRequir
 void QLDLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  int n = variables().totalSize();
+  Q_.setIdentity(n, n); // Q_ was not allocated if cholesky_ is true
   c_.setZero();
 }
 
diff --git a/src/solver/QuadprogLeastSquareSolver.cpp b/src/solver/QuadprogLeastSquareSolver.cpp
index b4b5d68..b2f93eb 100644
--- a/src/solver/QuadprogLeastSquareSolver.cpp
+++ b/src/solver/QuadprogLeastSquareSolver.cpp
@@ -136,7 +136,8 @@ void QuadprogLeastSquareSolver::addObjective_(LinearConstraintPtr cstr,
 void QuadprogLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  int n = variables().totalSize();
+  Q_.setIdentity(n, n); // Q_ was not allocated if cholesky_ is true
   c_.setZero();
 }
 
-- 
2.43.0


From 0feb4841ee0c57dec5976c8d2585a9eb0f5c7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:33 +0000
Subject: [PATCH 35/66] fix: rebuild the data of a weighted least-squares
 problem after an interrupted update

---
 include/tvm/scheme/WeightedLeastSquares.h |  3 +++
 src/scheme/WeightedLeastSquares.cpp       | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index ab44c3e..8599855 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -41,6 +41,9 @@ private:
 
     int maxp = 0;
 
+    /** True if the data need to be rebuilt, because their last update was interrupted.*/
+    bool outdated = false;
+
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
   };
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index e9be289..b0e503c 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -45,9 +45,18 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
 
+  Memory * memory = static_cast<Memory *>(data);
+  if(memory->outdated)
+  {
+    resetComputationData(problem, memory);
+    return;
+  }
+
   if(data->hasEvents())
   {
-    Memory * memory = static_cast<Memory *>(data);
+    // Until all the events are processed, the data are not consistent with the problem. If anything is thrown in the
+    // meantime, we'll have to rebuild the data.
+    memory->outdated = true;
 
     // If some events require to rebuild the data, we skip all other events.
     for(const auto & e : memory->events())
@@ -97,6 +106,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
 
     memory->variables(); // update variable vector if needed
     memory->solver->process(se);
+    memory->outdated = false;
   }
 }
 
@@ -111,8 +121,10 @@ std::unique_ptr<WeightedLeastSquares::Memory> WeightedLeastSquares::createComput
 
 void WeightedLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->outdated = true;
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->outdated = false;
 }
 
 void WeightedLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
-- 
2.43.0


From 64e862efb4825f159c2e0ea9c665dd172b083197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 36/66] fix: process the weight changes once the variables and
 targets are updated

---
 src/solver/LeastSquareSolver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 98004ad..ec6e974 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -183,7 +183,6 @@ int LeastSquareSolver::constraintSize(const constraint::abstract::LinearConstrai
 
 void LeastSquareSolver::process(const internal::SolverEvents & se)
 {
-  updateWeights(se);
   auto impactRemove = processRemovedConstraints(se);
   bool needMappingUpdate = updateVariables(se);
   auto impactAdd = previewAddedConstraints(se);
@@ -289,6 +288,8 @@ void LeastSquareSolver::process(const internal::SolverEvents & se)
       updateMapping(objectiveToAssignments_);
   }
 
+  // Updating the weights may require to re-create assignments: the variables and the targets need to be up-to-date.
+  updateWeights(se);
   processAddedConstraints(se);
 }
 
@@ -301,9 +302,8 @@ void LeastSquareSolver::updateWeights(const internal::SolverEvents & se)
     auto [c, scalar, vector] = e;
 
     // We might have change of weights on constraints that were not added yet (because process of
-    // of weight arise before processing added constraints - if we'd process the weight after, we
-    // could have change of weight on removed constraints). Therefore we need to ignore constraints
-    // that were not found in the map.
+    // of weight arise before processing added constraints) or that were removed. Therefore we need
+    // to ignore constraints that were not found in the map.
     auto it = objectiveToAssignments_.find(c);
     if(it == objectiveToAssignments_.end())
       continue;
-- 
2.43.0


From 58e27acf97a3ed4a8677a9bd3a2074ffc57894c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:20 +0000
Subject: [PATCH 37/66] fix: resolution of a problem whose tasks have all been
 removed

---
 src/scheme/HierarchicalLeastSquares.cpp | 10 +++++++---
 src/scheme/WeightedLeastSquares.cpp     | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index e6c9db7..0ed5b24 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -25,9 +25,9 @@ const internal::SchemeAbilities HierarchicalLeastSquares::abilities_ = {NoLimit,
 bool HierarchicalLeastSquares::solve_(const LinearizedControlProblem & problem,
                                       internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  Memory * memory = static_cast<Memory *>(data);
+  if(memory->variables().totalSize() > 0)
   {
-    Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
   }
   else
@@ -214,7 +214,11 @@ void HierarchicalLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::H
 }
 
 void HierarchicalLeastSquares::Memory::setVariablesToSolution_(tvm::internal::VariableCountingVector & x)
-{ x.set(solver->result()); }
+{
+  // Without variables, there was nothing to solve.
+  if(x.variables().totalSize() > 0)
+    x.set(solver->result());
+}
 
 } // namespace scheme
 
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index b0e503c..e6dd8a2 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -27,9 +27,9 @@ const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {
 bool WeightedLeastSquares::solve_(const LinearizedControlProblem & problem,
                                   internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  Memory * memory = static_cast<Memory *>(data);
+  if(memory->variables().totalSize() > 0)
   {
-    Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
   }
   else
@@ -342,7 +342,11 @@ void WeightedLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::Least
 }
 
 void WeightedLeastSquares::Memory::setVariablesToSolution_(tvm::internal::VariableCountingVector & x)
-{ x.set(solver->result()); }
+{
+  // Without variables, there was nothing to solve.
+  if(x.variables().totalSize() > 0)
+    x.set(solver->result());
+}
 
 } // namespace scheme
 
-- 
2.43.0


From e2ec8f3278669631b4919ca818f61c3857abf44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 38/66] fix: changes of shape of the solver matrices that keep
 their number of coefficients

---
 include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h | 2 +-
 include/tvm/solver/abstract/LeastSquareSolver.h             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h b/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
index 4c765ba..e7f8b08 100644
--- a/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
+++ b/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
@@ -234,7 +234,7 @@ template<typename Derived>
 inline bool HierarchicalLeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                              int rows,
                                                                              int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; }
 
 } // namespace abstract
 
diff --git a/include/tvm/solver/abstract/LeastSquareSolver.h b/include/tvm/solver/abstract/LeastSquareSolver.h
index a153a99..46ebdf1 100644
--- a/include/tvm/solver/abstract/LeastSquareSolver.h
+++ b/include/tvm/solver/abstract/LeastSquareSolver.h
@@ -239,7 +239,7 @@ template<typename Derived>
 inline bool LeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                  int rows,
                                                                  int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; }
 
 } // namespace abstract
 
-- 
2.43.0


From 23837de3323c5654938b9078c7faf8e174377b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 39/66] fix: the variables of the constraints left by the
 substitutions are part of the problem

---
 src/scheme/HierarchicalLeastSquares.cpp | 1 +
 src/scheme/WeightedLeastSquares.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 0ed5b24..c69a94b 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -155,6 +155,7 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
   }
   for(const auto & c : subs.additionalConstraints())
   {
+    memory->addVariable(c->variables());
     nEq[0] += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index e6dd8a2..16195e3 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -178,6 +178,7 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
   // They are added at level 0
   for(const auto & c : subs.additionalConstraints())
   {
+    memory->addVariable(c->variables());
     nEq += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
-- 
2.43.0


From 5edd09974446107d9f39d77f65824dd1bd0d22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 40/66] fix: a rank deficient substitution can have more
 equations than unknowns

---
 src/hint/SubstitutionCalculatorImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hint/SubstitutionCalculatorImpl.cpp b/src/hint/SubstitutionCalculatorImpl.cpp
index 6e7d126..ece219d 100644
--- a/src/hint/SubstitutionCalculatorImpl.cpp
+++ b/src/hint/SubstitutionCalculatorImpl.cpp
@@ -144,7 +144,7 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
     n_ += v->size();
   }
 
-  assert(m_ <= n_);
+  assert(r_ <= n_);
   assert(r_ <= m_);
 
   if(!isSimple())
-- 
2.43.0


From 5736d7414dc8d435c0c415514a946770550978a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 41/66] fix: removing a substitution given by the user's object

---
 src/hint/Substitutions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index b77d505..f12c452 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -45,7 +45,10 @@ void Substitutions::add(const Substitution & s)
 
 void Substitutions::remove(const Substitution & s)
 {
-  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) { return &e == &s; });
+  // The substitutions were copied when added, so that s is most likely not an element of substitutions_.
+  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) {
+    return &e == &s || (e.constraints() == s.constraints() && e.variables() == s.variables());
+  });
   if(it == substitutions_.end())
     return;
 
-- 
2.43.0


From fbd5a61504eeaf922b1ca44469b82632c9b125f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 42/66] fix: a refused task removal leaves the linearized
 problem unchanged

---
 src/LinearizedControlProblem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 36907a5..3fcf8c7 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -59,13 +59,14 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 
 void LinearizedControlProblem::remove(const TaskWithRequirements & tr)
 {
-  ControlProblem::remove(tr);
   auto it = constraints_.find(&tr);
   if(it == constraints_.end())
   {
     return;
   }
+  // This may throw, so we do it before changing anything else.
   removeSubstitutionFor(*it->second.constraint);
+  ControlProblem::remove(tr);
   updater_.removeInput(it->second.constraint.get());
   constraints_.erase(it);
 }
-- 
2.43.0


From 0be2b520b90800f63a84ca98f916ba379bd8d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 43/66] fix: adding or removing a task keeps the data of the
 substitutions used by the solvers

---
 include/tvm/hint/internal/Substitutions.h | 5 +++++
 src/hint/Substitutions.cpp                | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/include/tvm/hint/internal/Substitutions.h b/include/tvm/hint/internal/Substitutions.h
index d5d96a5..a71bc1b 100644
--- a/include/tvm/hint/internal/Substitutions.h
+++ b/include/tvm/hint/internal/Substitutions.h
@@ -43,6 +43,8 @@ public:
    * Needs to be called after all the call to \p add or \p remove, and before
    * the calls to \p variables, \p variableSubstitutions and
    * \p additionalConstraints.
+   * Does nothing if no substitution was added or removed since the last call, so that the variables, functions and
+   * constraints created for the substitutions, that can be used elsewhere, stay the same.
    */
   void finalize();
 
@@ -80,6 +82,9 @@ private:
    */
   tvm::graph::internal::DependencyGraph dependencies_;
 
+  /** False if substitutions were added or removed since the last call to \p finalize.*/
+  bool finalized_ = false;
+
   /** Group of dependent substitutions*/
   std::vector<SubstitutionUnit> units_;
 
diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index f12c452..858e00b 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -29,6 +29,7 @@ void Substitutions::add(const Substitution & s)
   auto i = dependencies_.addNode();
   assert(i == substitutions_.size());
   substitutions_.push_back(s);
+  finalized_ = false;
 
   for(size_t j = 0; j < substitutions_.size(); ++j)
   {
@@ -54,6 +55,7 @@ void Substitutions::remove(const Substitution & s)
 
   dependencies_.removeNode(it - substitutions_.begin());
   substitutions_.erase(it);
+  finalized_ = false;
 }
 
 const std::vector<Substitution> & Substitutions::substitutions() const { return substitutions_; }
@@ -73,6 +75,9 @@ bool Substitutions::uses(LinearConstraintPtr c) const
 
 void Substitutions::finalize()
 {
+  if(finalized_)
+    return;
+
   // Detect interdependent substitutions (this corresponds to strongly connected
   // components of the dependency graph).
   tvm::graph::internal::DependencyGraph g;
@@ -127,6 +132,7 @@ void Substitutions::finalize()
       }
     }
   }
+  finalized_ = true;
 }
 
 void Substitutions::updateSubstitutions()
-- 
2.43.0


From d3c48d19cf3e06f13a1e44d43c95ae72ca3cba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 44/66] fix: rebuild the data of a hierarchical least-squares
 problem after an interrupted update

---
 include/tvm/scheme/HierarchicalLeastSquares.h |  3 +++
 src/scheme/HierarchicalLeastSquares.cpp       | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/tvm/scheme/HierarchicalLeastSquares.h b/include/tvm/scheme/HierarchicalLeastSquares.h
index dace5ea..f10c439 100644
--- a/include/tvm/scheme/HierarchicalLeastSquares.h
+++ b/include/tvm/scheme/HierarchicalLeastSquares.h
@@ -33,6 +33,9 @@ private:
 
     std::unique_ptr<solver::abstract::HierarchicalLeastSquareSolver> solver;
 
+    /** True if the data need to be rebuilt, because their last update was interrupted.*/
+    bool outdated = false;
+
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
   };
diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index c69a94b..52391ef 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -43,12 +43,21 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
 
+  Memory * memory = static_cast<Memory *>(data);
+  if(memory->outdated)
+  {
+    resetComputationData(problem, memory);
+    return;
+  }
+
   if(!data->hasEvents())
   {
     return;
   }
 
-  Memory * memory = static_cast<Memory *>(data);
+  // Until all the events are processed, the data are not consistent with the problem. If anything is thrown in the
+  // meantime, we'll have to rebuild the data.
+  memory->outdated = true;
 
   // If some events require to rebuild the data, we skip all other events.
   for(const auto & e : memory->events())
@@ -87,6 +96,7 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
 
   memory->variables(); // update variable vector if needed
   memory->solver->process(se);
+  memory->outdated = false;
 }
 
 std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::createComputationData_(
@@ -100,8 +110,10 @@ std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::crea
 
 void HierarchicalLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->outdated = true;
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->outdated = false;
 }
 
 void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
-- 
2.43.0


From d0da1aaa3423d60d10ac09d887aa351437b1dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 45/66] fix: hierarchical least-squares problems with only
 bounds

---
 src/scheme/HierarchicalLeastSquares.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 52391ef..6795ebc 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -158,9 +158,8 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
       constr.push_back(c);
     }
   }
-  // we need to add the additional constraints due to the substitutions.
-  // They are added at level 0.
-  if(subs.additionalConstraints().size() > 0 && nEq.size() == 0)
+  // The bounds and the additional constraints due to the substitutions (added below) are at level 0.
+  if((subs.additionalConstraints().size() > 0 || bounds.size() > 0) && nEq.size() == 0)
   {
     nEq.push_back(0);
     nIneq.push_back(0);
-- 
2.43.0


From f6fabafcf2033ab8d4eacd1d2c0e90f09798788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:22 +0000
Subject: [PATCH 46/66] fix: sizes when building again the problem of a
 hierarchical least-squares solver

---
 src/solver/HierarchicalLeastSquareSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/HierarchicalLeastSquareSolver.cpp b/src/solver/HierarchicalLeastSquareSolver.cpp
index cee065a..56190a3 100644
--- a/src/solver/HierarchicalLeastSquareSolver.cpp
+++ b/src/solver/HierarchicalLeastSquareSolver.cpp
@@ -71,8 +71,8 @@ void HierarchicalLeastSquareSolver::startBuild(const VariableVector & x,
   initializeBuild_(nEq, nIneq, useBounds);
   nEq_ = nEq;
   nIneq_ = nIneq;
-  eqSize_.resize(nEq_.size(), 0);
-  ineqSize_.resize(nEq_.size(), 0);
+  eqSize_.assign(nEq_.size(), 0);
+  ineqSize_.assign(nEq_.size(), 0);
   useBounds_ = useBounds;
 }
 
-- 
2.43.0


From 51c999a901cfabca0b1cbd361b0320d859474ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:20 +0000
Subject: [PATCH 47/66] fix: infinite bounds with a null weight in hierarchical
 least-squares

---
 src/solver/LexLSHierarchicalLeastSquareSolver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
index 99fc660..76286f1 100644
--- a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
+++ b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
@@ -196,6 +196,13 @@ void LexLSHierarchicalLeastSquareSolver::preAssignmentProcess_() {}
 
 void LexLSHierarchicalLeastSquareSolver::postAssignmentProcess_()
 {
+  // Infinite bounds are given as big numbers. This includes infinite bounds multiplied by a null weight (nan).
+  for(size_t i = 0; i < data_.size(); ++i)
+  {
+    l_[i] = (l_[i].array() >= -big_number_).select(l_[i], -big_number_);
+    u_[i] = (u_[i].array() <= big_number_).select(u_[i], big_number_);
+  }
+
   solver_.reset();
   int i0 = 0;
   if(useBounds_ && feasibleFirstLevel_)
-- 
2.43.0


From 7ce49e6eb7d355adb2458ebf787174b8d7d9833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 48/66] fix: building several times with the same LexLS
 hierarchical solver

---
 src/solver/LexLSHierarchicalLeastSquareSolver.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
index 76286f1..b2a41fa 100644
--- a/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
+++ b/src/solver/LexLSHierarchicalLeastSquareSolver.cpp
@@ -47,9 +47,17 @@ void LexLSHierarchicalLeastSquareSolver::initializeBuild_(const std::vector<int>
                                                           const std::vector<int> & nIneq,
                                                           bool useBounds)
 {
-  resize_(nEq, nIneq, useBounds);
-
+  // Discard the data of the previous build, if any
+  data_.clear();
+  A_.clear();
+  l_.clear();
+  u_.clear();
+  boundData_.resize(1, 1);
+  new(&xl_) VectorRef(boundData_.col(0));
+  new(&xu_) VectorRef(boundData_.col(0));
   autoMinNorm_ = false;
+
+  resize_(nEq, nIneq, useBounds);
 }
 
 LexLSHierarchicalLeastSquareSolver::ImpactFromChanges LexLSHierarchicalLeastSquareSolver::resize_(
-- 
2.43.0


From 76433ea7ba7d2e500bd964c28e6c66801d8f5067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 49/66] fix: building a problem with a LexLS least-squares
 solver after one with a minimum norm objective

---
 src/solver/LexLSLeastSquareSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/LexLSLeastSquareSolver.cpp b/src/solver/LexLSLeastSquareSolver.cpp
index 46d12e7..b9df3b4 100644
--- a/src/solver/LexLSLeastSquareSolver.cpp
+++ b/src/solver/LexLSLeastSquareSolver.cpp
@@ -45,9 +45,9 @@ LexLSLeastSquareSolver::LexLSLeastSquareSolver(const LexLSLSSolverOptions & opti
 
 void LexLSLeastSquareSolver::initializeBuild_(int nObj, int nEq, int nIneq, bool)
 {
-  resize_(nObj, nEq, nIneq, true);
-
   autoMinNorm_ = false;
+
+  resize_(nObj, nEq, nIneq, true);
 }
 
 LexLSLeastSquareSolver::ImpactFromChanges LexLSLeastSquareSolver::resize_(int nObj, int nEq, int nIneq, bool)
-- 
2.43.0


From 6fe4da5c9f3b556d6b170f257be8ffc44ee75b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 50/66] fix: adding a task that can't be linearized leaves the
 problem unchanged

---
 src/LinearizedControlProblem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 3fcf8c7..2f29e35 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -25,16 +25,17 @@ TaskWithRequirementsPtr LinearizedControlProblem::add(const Task & task, const r
 
 void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 {
-  ControlProblem::add(tr);
-
   // FIXME A lot of work can be done here based on the properties of the task's jacobian.
   // In particular, we could detect bounds, pairs of tasks forming a double-sided constraints...
   LinearConstraintWithRequirements lcr;
+  // This may throw, so we do it before changing anything else.
   lcr.constraint = std::make_shared<constraint::internal::LinearizedTaskConstraint>(tr->task);
   // we use the aliasing constructor of std::shared_ptr to ensure that
   // lcr.requirements points to and doesn't outlive tr->requirements.
   lcr.requirements = std::shared_ptr<requirements::SolvingRequirementsWithCallbacks>(tr, &tr->requirements);
   lcr.bound = scheme::internal::isBound(lcr.constraint);
+
+  ControlProblem::add(tr);
   constraints_[tr.get()] = lcr;
 
   using CstrOutput = internal::FirstOrderProvider::Output;
-- 
2.43.0


From 21e6a033ea92fd5e2f70d5dc8e04c981aa393427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 51/66] fix: removing a task owned by the problem only

---
 src/ControlProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ControlProblem.cpp b/src/ControlProblem.cpp
index e263e3f..6773573 100644
--- a/src/ControlProblem.cpp
+++ b/src/ControlProblem.cpp
@@ -31,6 +31,7 @@ void ControlProblem::remove(const TaskWithRequirements & tr)
   {
     return;
   }
+  TaskWithRequirementsPtr keepAlive = *it; // tr_ might be the only owner of tr.
   tr_.erase(it);
   notify(scheme::internal::ProblemDefinitionEvent(scheme::internal::ProblemDefinitionEvent::Type::TaskRemoval, tr));
   callbackTokens_.erase(&tr);
-- 
2.43.0


From 1920cb3fd7d1834728f969d21fa22e80d51dd06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 52/66] fix: callbacks registered or unregistered by a callback

---
 include/tvm/internal/CallbackManager.h | 39 ++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/include/tvm/internal/CallbackManager.h b/include/tvm/internal/CallbackManager.h
index 7905652..eb0d4a3 100644
--- a/include/tvm/internal/CallbackManager.h
+++ b/include/tvm/internal/CallbackManager.h
@@ -36,11 +36,15 @@ public:
 
   /** Run all callbacks. Remove the ones for which the token obtained at the
    * registration was destroyed.
+   *
+   * A callback may register or unregister callbacks. The ones registered during
+   * a run are called from the next run on.
    */
   void run();
 
 private:
   std::vector<TCPair> callbacks_;
+  int nbRunning_ = 0; // Number of executions of run currently in progress.
 };
 
 inline PairElementTokenHandle CallbackManager::registerCallback(std::function<void()> c)
@@ -54,25 +58,44 @@ inline void CallbackManager::unregisterCallback(const PairElementToken & t)
   auto it =
       std::find_if(callbacks_.begin(), callbacks_.end(), [&](const TCPair & p) { return p.first.isPairedWith(t); });
   if(it != callbacks_.end())
-    callbacks_.erase(it);
+  {
+    if(nbRunning_ > 0)
+      it->first = PairElementToken(); // The callback is possibly being executed: it is removed at the end of run
+    else
+      callbacks_.erase(it);
+  }
   else
     throw std::runtime_error("Element to unregister not found.");
 }
 
 inline void CallbackManager::run()
 {
-  for(size_t i = 0; i < callbacks_.size();)
   {
-    if(callbacks_[i].first.isPaired())
+    struct RunCounter
     {
-      std::invoke(callbacks_[i].second);
-      ++i;
-    }
-    else
+      explicit RunCounter(int & count) : count_(count) { ++count_; }
+      ~RunCounter() { --count_; }
+      int & count_;
+    } counter(nbRunning_);
+
+    // No element is removed from callbacks_ while running, but some might be added by the callbacks.
+    const size_t n = callbacks_.size();
+    for(size_t i = 0; i < n; ++i)
     {
-      callbacks_.erase(callbacks_.begin() + i);
+      if(callbacks_[i].first.isPaired())
+      {
+        Callback c = callbacks_[i].second; // Registering a callback might move the elements of callbacks_
+        std::invoke(c);
+      }
     }
   }
+
+  if(nbRunning_ == 0)
+  {
+    callbacks_.erase(
+        std::remove_if(callbacks_.begin(), callbacks_.end(), [](const TCPair & p) { return !p.first.isPaired(); }),
+        callbacks_.end());
+  }
 }
 
 } // namespace tvm::internal
-- 
2.43.0


From c1dab00c01634e8c44d269361a9f8f6177eb9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 53/66] fix: notification of an event with destroyed listeners

---
 src/event/Source.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/event/Source.cpp b/src/event/Source.cpp
index d4a8734..8873524 100644
--- a/src/event/Source.cpp
+++ b/src/event/Source.cpp
@@ -14,9 +14,12 @@ void Source::regist(std::shared_ptr<Listener> user, Type evt) { registrations_[e
 
 void Source::notify(Type evt)
 {
-  const auto & list = registrations_[evt];
+  const auto list = registrations_[evt]; // Copy, as a listener might register others.
   for(const auto & u : list)
-    u.lock()->receive(evt, *this);
+  {
+    if(auto l = u.lock())
+      l->receive(evt, *this);
+  }
 }
 
 } // namespace event
-- 
2.43.0


From 7007d67c644d0f17b9b808a117260643977cfdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:36 +0000
Subject: [PATCH 54/66] fix: check the values given to a solving requirement
 after its construction

---
 include/tvm/requirements/AnisotropicWeight.h    | 17 +++++++++++++++--
 include/tvm/requirements/PriorityLevel.h        | 17 +++++++++++++++--
 include/tvm/requirements/Weight.h               | 17 +++++++++++++++--
 .../abstract/SingleSolvingRequirement.h         |  2 +-
 4 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/include/tvm/requirements/AnisotropicWeight.h b/include/tvm/requirements/AnisotropicWeight.h
index 0665865..a3b4a98 100644
--- a/include/tvm/requirements/AnisotropicWeight.h
+++ b/include/tvm/requirements/AnisotropicWeight.h
@@ -44,12 +44,25 @@ public:
   /** Constructor for a given vector of weights \p w*/
   AnisotropicWeightBase(const Eigen::VectorXd & w)
   : abstract::SingleSolvingRequirement<Eigen::VectorXd, Lightweight>(w, false)
+  { check(w); }
+
+  using abstract::SingleSolvingRequirement<Eigen::VectorXd, Lightweight>::value;
+
+  /** Change the current value */
+  void value(const Eigen::VectorXd & w)
   {
-    if((w.array() < 0).any())
-      throw std::runtime_error("weights must be non-negative.");
+    check(w);
+    abstract::SingleSolvingRequirement<Eigen::VectorXd, Lightweight>::value(w);
   }
 
   TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(AnisotropicWeightBase, Eigen::VectorXd, Lightweight)
+
+private:
+  static void check(const Eigen::VectorXd & w)
+  {
+    if((w.array() < 0).any())
+      throw std::runtime_error("weights must be non-negative.");
+  }
 };
 
 using AnisotropicWeight = AnisotropicWeightBase<true>;
diff --git a/include/tvm/requirements/PriorityLevel.h b/include/tvm/requirements/PriorityLevel.h
index 77abe17..5f4c682 100644
--- a/include/tvm/requirements/PriorityLevel.h
+++ b/include/tvm/requirements/PriorityLevel.h
@@ -22,12 +22,25 @@ public:
 
   /** Priority level p>=0*/
   PriorityLevelBase(int p) : abstract::SingleSolvingRequirement<int, Lightweight>(p, false)
+  { check(p); }
+
+  using abstract::SingleSolvingRequirement<int, Lightweight>::value;
+
+  /** Change the current value */
+  void value(const int & p)
   {
-    if(p < 0)
-      throw std::runtime_error("Priority level must be non-negative.");
+    check(p);
+    abstract::SingleSolvingRequirement<int, Lightweight>::value(p);
   }
 
   TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(PriorityLevelBase, int, Lightweight)
+
+private:
+  static void check(const int & p)
+  {
+    if(p < 0)
+      throw std::runtime_error("Priority level must be non-negative.");
+  }
 };
 
 using PriorityLevel = PriorityLevelBase<true>;
diff --git a/include/tvm/requirements/Weight.h b/include/tvm/requirements/Weight.h
index b8b33d2..65a4277 100644
--- a/include/tvm/requirements/Weight.h
+++ b/include/tvm/requirements/Weight.h
@@ -27,12 +27,25 @@ public:
   WeightBase() : abstract::SingleSolvingRequirement<double, Lightweight>(1.0, true) {}
 
   WeightBase(double alpha) : abstract::SingleSolvingRequirement<double, Lightweight>(alpha, false)
+  { check(alpha); }
+
+  using abstract::SingleSolvingRequirement<double, Lightweight>::value;
+
+  /** Change the current value */
+  void value(const double & alpha)
   {
-    if(alpha < 0)
-      throw std::runtime_error("weight must be non negative.");
+    check(alpha);
+    abstract::SingleSolvingRequirement<double, Lightweight>::value(alpha);
   }
 
   TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(WeightBase, double, Lightweight)
+
+private:
+  static void check(const double & alpha)
+  {
+    if(alpha < 0)
+      throw std::runtime_error("weight must be non negative.");
+  }
 };
 
 using Weight = WeightBase<true>;
diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 63ce1c2..72c16e8 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -85,6 +85,6 @@ protected:
   }                                                                                           \
   className & operator=(const T & val)                                                        \
   {                                                                                           \
-    abstract::SingleSolvingRequirement<T, L>::operator=(val);                                 \
+    this->value(val);                                                                         \
     return *this;                                                                             \
   }
-- 
2.43.0


From 8b043e1e94c296aaeabdc0679634cf7613df8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 55/66] fix: notify when a solving requirement is assigned from
 one without callbacks

---
 include/tvm/requirements/abstract/SingleSolvingRequirement.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 72c16e8..a5f9efc 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -55,6 +55,10 @@ protected:
   {
     value_ = other.value();
     default_ = other.isDefault();
+    if constexpr(!Lightweight)
+    {
+      Base::run();
+    }
     return *this;
   }
 
-- 
2.43.0


From d09635bfc90bddab062767ff7a8432fdc03264d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 56/66] fix: constant-acceleration trajectory in
 checkNormalAcceleration

---
 src/utils/checkFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 74119c3..198f1c7 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -349,7 +349,7 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
   // we consider a constant-acceleration trajectory in variable space
   double dt = opt.step;
   VectorXd vel1 = vel0 + acc * dt;
-  VectorXd val1 = val0 + vel0 * dt + 0.5 * acc.cwiseProduct(acc) * dt * dt;
+  VectorXd val1 = val0 + vel0 * dt + 0.5 * acc * dt * dt;
 
   VectorXd v0 = uf.velocity(val0, vel0);
   VectorXd v1 = uf.velocity(val1, vel1);
-- 
2.43.0


From cef960607c1f07dd7a759eea7346848d9555693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 57/66] fix: checkNormalAcceleration always rejected linear
 functions

---
 src/utils/checkFunction.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 198f1c7..b82aadb 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -359,17 +359,20 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
   // Force computation of jacobian matrices
   uf.jacobian(*x[0], val0);
 
-  // Compute (d2f/dt2-J*dx2/dt2)
+  // Compute J*dx2/dt2
+  VectorXd Ja = VectorXd::Zero(a.size());
   int s = 0;
   for(const auto & xi : x)
   {
     int ni = xi->size();
-    a -= f->jacobian(*xi) * acc.segment(s, ni);
+    Ja += f->jacobian(*xi) * acc.segment(s, ni);
     s += ni;
   }
 
+  // We compare d2f/dt2 with its approximation rather than the normal acceleration with the approximation of
+  // d2f/dt2-J*dx2/dt2: this one would never be approximately null, as required by e.g. linear functions.
   const VectorXd & na = uf.normalAcceleration(val0, vel0);
-  if(na.isApprox(a, opt.prec))
+  if((na + Ja).isApprox(a, opt.prec))
   {
     return true;
   }
@@ -378,7 +381,7 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
     if(opt.verbose)
     {
       std::cout << "Incorrect normal acceleration:\n"
-                << "got\t\t" << na.transpose() << "\nexpected\t" << a.transpose() << std::endl;
+                << "got\t\t" << na.transpose() << "\nexpected\t" << (a - Ja).transpose() << std::endl;
     }
     return false;
   }
-- 
2.43.0


From 5501056a87aedbf4c60a6237876f44f90322bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 58/66] fix: compare all columns in checkJacobian

---
 src/utils/checkFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index b82aadb..606e041 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -131,6 +131,7 @@ bool checkJacobian(const UpdatelessFunction & uf, const CheckOptions & opt, cons
                     << ") of the total jacobian) is not equivalent to the result of the ffd." << std::endl;
         }
       }
+      ++i;
     }
   }
 
-- 
2.43.0


From 999c6fac15b2fb0771613bee1e04817de03d7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 59/66] fix: not a number was accepted by checkJacobian

---
 src/utils/checkFunction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 606e041..fad2af1 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -122,7 +122,8 @@ bool checkJacobian(const UpdatelessFunction & uf, const CheckOptions & opt, cons
   {
     for(int j = 0; j < xi->size(); ++j)
     {
-      if((J.col(i) - J0.col(i)).cwiseAbs2().sum() > opt.prec * opt.prec * norm2)
+      // The negation is for not a number to be detected.
+      if(!((J.col(i) - J0.col(i)).cwiseAbs2().sum() <= opt.prec * opt.prec * norm2))
       {
         b = false;
         if(opt.verbose)
-- 
2.43.0


From 9e8ff635ad99c78fb344ace521cefe4f3ad465de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:46 +0000
Subject: [PATCH 60/66] fix: printing the data of a minimum norm problem for
 QLD and Quadprog with the cholesky option

---
 src/solver/QLDLeastSquareSolver.cpp      | 2 +-
 src/solver/QuadprogLeastSquareSolver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/QLDLeastSquareSolver.cpp b/src/solver/QLDLeastSquareSolver.cpp
index 6696282..300ee44 100644
--- a/src/solver/QLDLeastSquareSolver.cpp
+++ b/src/solver/QLDLeastSquareSolver.cpp
@@ -191,7 +191,7 @@ void QLDLeastSquareSolver::applyImpactLogic(ImpactFromChanges & impact)
 
 void QLDLeastSquareSolver::printProblemData_() const
 {
-  if(cholesky_)
+  if(cholesky_ && !autoMinNorm_)
   {
     int n = variables().totalSize();
     std::cout << "R =\n"
diff --git a/src/solver/QuadprogLeastSquareSolver.cpp b/src/solver/QuadprogLeastSquareSolver.cpp
index b2f93eb..56eed07 100644
--- a/src/solver/QuadprogLeastSquareSolver.cpp
+++ b/src/solver/QuadprogLeastSquareSolver.cpp
@@ -254,7 +254,7 @@ void QuadprogLeastSquareSolver::applyImpactLogic(ImpactFromChanges & impact)
 
 void QuadprogLeastSquareSolver::printProblemData_() const
 {
-  if(cholesky_)
+  if(cholesky_ && !autoMinNorm_)
   {
     int n = variables().totalSize();
     std::cout << "R =\n"
-- 
2.43.0


From a7703dba89bb7cd087817204fbc783f17152a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:15 +0000
Subject: [PATCH 61/66] fix: number for infinity used when adding a task to a
 problem already solved

---
 src/scheme/WeightedLeastSquares.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 16195e3..a257e1e 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -105,6 +105,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     }
 
     memory->variables(); // update variable vector if needed
+    Assignment::big_ = big_number_; // another scheme may have changed it
     memory->solver->process(se);
     memory->outdated = false;
   }
-- 
2.43.0


From 8787ba3b7b828787b0ff26d5a0e47f84065a6c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:17 +0000
Subject: [PATCH 62/66] fix: assigning a constraint with an anisotropic weight
 of the wrong size throws

---
 src/scheme/Assignment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 51e5242..29d8e23 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -401,6 +401,8 @@ void Assignment::processRequirements()
         }
         else
         {
+          if(requirements_->anisotropicWeight().value().size() != source_->size())
+            throw std::runtime_error("[Assignment::processRequirements] Anisotropic weight has not the correct size.");
           useDefaultAnisotropicWeight_ = false;
           data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
           data_->anisotropicWeight_ *= data_->scalarWeight_;
-- 
2.43.0


From 73b9adc170983711acc98e33f981fb482bfea38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:48 +0000
Subject: [PATCH 63/66] fix: deciding the convention of a bound on a
 substituted variable used the jacobian of another variable

---
 src/scheme/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/helpers.cpp b/src/scheme/helpers.cpp
index 5df6ce7..a406f3e 100644
--- a/src/scheme/helpers.cpp
+++ b/src/scheme/helpers.cpp
@@ -142,7 +142,7 @@ bool canBeUsedAsBound(const ConstraintPtr & c,
     else
     {
       const auto & sub = xsub[static_cast<size_t>(it - x.begin())];
-      auto ps = sub->jacobian(*x[0]).properties();
+      const auto ps = sub->jacobian(*sub->variables()[0]).properties();
       if(case1)
         return (p * ps).isPositiveDefinite();
       else
-- 
2.43.0


From de71a16040e14fcb10a8d9208f4120af84047b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:28 +0000
Subject: [PATCH 64/66] fix: clearing a call graph releases the inputs it was
 built from

---
 src/graph/CallGraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/CallGraph.cpp b/src/graph/CallGraph.cpp
index 6891185..6ab82f5 100644
--- a/src/graph/CallGraph.cpp
+++ b/src/graph/CallGraph.cpp
@@ -32,6 +32,7 @@ void CallGraph::update() { plan_.build(*this); }
 
 void CallGraph::clear()
 {
+  inputs_.clear();
   callId_.clear();
   calls_.clear();
   dependencyGraph_.clear();
-- 
2.43.0


From 7c05d959ad8ec99ee24fb2b8203640a27161f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:49 +0000
Subject: [PATCH 65/66] fix: creating task dynamics for a null function throws
 as announced

---
 src/task_dynamics/TaskDynamicsImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/task_dynamics/TaskDynamicsImpl.cpp b/src/task_dynamics/TaskDynamicsImpl.cpp
index 1e38ad8..d7de086 100644
--- a/src/task_dynamics/TaskDynamicsImpl.cpp
+++ b/src/task_dynamics/TaskDynamicsImpl.cpp
@@ -18,6 +18,8 @@ namespace abstract
 TaskDynamicsImpl::TaskDynamicsImpl(Order order, FunctionPtr f, constraint::Type t, const Eigen::VectorXd & rhs)
 : order_(order), type_(t), rhs_(rhs)
 {
+  if(!f)
+    throw std::runtime_error("[TaskDynamicsImpl] You cannot pass a nullptr as a function.");
   if(f->size() != rhs.size())
   {
     throw std::runtime_error("[TaskDynamicsImpl] rhs does not have the same size as f.");
-- 
2.43.0


From 53ca9b1988e22ab8a6f342d4118ec110a0a4aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:17 +0000
Subject: [PATCH 66/66] fix: a diagonal calculator refuses negative indices and
 matrices with rows it does not know

---
 src/hint/DiagonalCalculator.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hint/DiagonalCalculator.cpp b/src/hint/DiagonalCalculator.cpp
index e025fe5..3f893bb 100644
--- a/src/hint/DiagonalCalculator.cpp
+++ b/src/hint/DiagonalCalculator.cpp
@@ -57,14 +57,15 @@ DiagonalCalculator::DiagonalCalculator(const std::vector<DenseIndex> & nnzRows,
   std::sort(nnz_.begin(), nnz_.end());
   std::sort(zeros_.begin(), zeros_.end());
 
+  if(nnz_.front() < 0 || (!zeros_.empty() && zeros_.front() < 0))
+  {
+    throw std::runtime_error("Indices must be non-negative.");
+  }
+
   std::vector<bool> appear(optionalMax(nnz_, zeros_) + 1, false);
 
   for(auto i : nnz_)
   {
-    if(i < 0)
-    {
-      throw std::runtime_error("Indices must be non-negative.");
-    }
     if(appear[static_cast<size_t>(i)])
     {
       throw std::runtime_error("Each index must be unique.");
@@ -77,10 +78,6 @@ DiagonalCalculator::DiagonalCalculator(const std::vector<DenseIndex> & nnzRows,
 
   for(auto i : zeros_)
   {
-    if(i < 0)
-    {
-      throw std::runtime_error("Indices must be non-negative.");
-    }
     if(appear[static_cast<size_t>(i)])
     {
       throw std::runtime_error("Each index of nnzRows and zeroRows must be unique.");
@@ -283,6 +280,10 @@ void DiagonalCalculator::Impl::build()
       ++k;
     }
   }
+  if(k != m())
+  {
+    throw std::runtime_error("The number of non-zero and zero rows is not the number of rows of the matrix.");
+  }
 
   inverse_.resize(static_cast<DenseIndex>(nnz_.size()));
 }
-- 
2.43.0

