#include "compiled.h"
#include "direct.h"
#include <tvm/scheme/internal/Assignment.h>
#include <tvm/solver/LSSOLLeastSquareSolver.h>
#include <tvm/solver/LexLSHierarchicalLeastSquareSolver.h>
#include <tvm/solver/LexLSLeastSquareSolver.h>
#include <tvm/solver/QLDLeastSquareSolver.h>
#include <tvm/solver/QuadprogLeastSquareSolver.h>

using namespace tvm;
using namespace vars;
using namespace ls;
using constraint::Type;

const pbt::Info pbt::info = {
    "P27",
    "guard: up to 30 calls setting, overriding and restoring whether Eigen can allocate, possibly nested, compared with a stack. Non-trivial: two overrides nested with different values, then restored. "
    "vector, matrix: a compiled assignment of any kind, on operands that are blocks of larger matrices, run 2 to 4 times with new values, also after being given another destination and source of the same "
    "sizes, allocations being forbidden. Non-trivial: two runs of one with a general product. "
    "resolution: any solver built from one to five tasks, solved 2 to 4 times with new data, allocations being forbidden. Non-trivial: a level with a weight, a double-sided constraint or a bound. "
    "Distinctness: the sequence of choices."};

PROPERTY(guard, 50000, 1000000)
{
  using namespace tvm::utils;
  std::vector<bool> stack;
  bool cur = true;
  set_is_malloc_allowed(true);
  int n = g.range(1, 30);
  int depth = 0;
  bool nested = false;
  for(int i = 0; i < n; ++i)
  {
    bool v = g.coin();
    switch(g.weighted({2, 4, 4, 1}))
    {
      case 0:
        g.log("set ", v);
        REQUIRE(set_is_malloc_allowed(v) == v, "value returned by set_is_malloc_allowed");
        cur = v;
        break;
      case 1:
        g.log("override ", v);
        if(!stack.empty() && cur != v) nested = true;
        stack.push_back(cur);
        override_is_malloc_allowed(v);
        cur = v;
        break;
      case 2:
        if(stack.empty()) break;
        g.log("restore");
        restore_is_malloc_allowed();
        cur = stack.back();
        stack.pop_back();
        if(nested && stack.empty()) g.nontrivial();
        break;
      case 3:
      {
        g.log("temporary");
        Eigen::VectorXd x;
        TVM_TEMPORARY_ALLOW_EIGEN_MALLOC(REQUIRE(is_malloc_allowed()); x = Eigen::VectorXd::Ones(3 + depth));
        REQUIRE(x.size() == 3 + depth);
        break;
      }
    }
    REQUIRE(is_malloc_allowed() == cur, "allowed: ", is_malloc_allowed(), " instead of ", cur);
    REQUIRE(Eigen::internal::is_malloc_allowed() == cur, "Eigen has another value");
  }
  while(!stack.empty())
  {
    restore_is_malloc_allowed();
    REQUIRE(is_malloc_allowed() == stack.back(), "after the last restores");
    stack.pop_back();
  }
  set_is_malloc_allowed(true);
}

namespace
{
/** Run a compiled assignment with allocations forbidden.*/
template<typename T>
void assignmentCase(Gen & g)
{
  using namespace compiled;
  constexpr bool vec = std::is_same_v<T, VectorXd>;
  auto A = static_cast<AssignType>(g.range(0, 4));
  auto W = static_cast<WeightMult>(g.range(0, 3));
  auto M = static_cast<MatrixMult>(g.range(0, 2));
  auto F = static_cast<Source>(g.range(0, vec ? 2 : 1));
  if(F == ZERO && g.coin()) F = EXTERNAL;
  int rt = g.range(1, 12), ct = vec ? 1 : g.range(1, 12), rf = rt, cf = ct;
  if(M == GENERAL) (vec ? rf : cf) = g.range(1, 12);
  g.log(vec ? "vector " : "matrix ", an[A], " ", wn[W], " ", mn[M], " ", fn[F], ", to ", rt, "x", ct, " from ", rf, "x", cf);
  int mr = vec ? rt : cf, mc = vec ? rf : ct;
  const int B = 26;
  MatrixXd to = g.bulk(B, B), from = g.bulk(B, B), mul = g.bulk(mr + 2, mc + 2);
  VectorXd wei = g.bulkVec(rt);
  if(M == INVERSE_DIAGONAL)
  {
    mul.setZero();
    mul.diagonal().setOnes();
  }
  double s = g.real(), c = g.real();
  auto mk = pickA<T>(A, W, M, F);
  auto block = [](MatrixXd & m, int r, int cc, int nr, int nc) {
    if constexpr(vec)
      return Ref<T>(m.col(cc).segment(r, nr));
    else
      return Ref<T>(m.block(r, cc, nr, nc));
  };
  Args<T> a{block(to, 1, 1, rt, ct), block(from, 1, 1, rf, cf), c, s, wei, mul.topLeftCorner(mr, mc)};
  auto w = mk(a);
  int n = g.range(2, 4);
  for(int i = 0; i < n; ++i)
  {
    {
      NoMalloc guard;
      w.run();
    }
    REQUIRE(tvm::utils::is_malloc_allowed(), "the guard was changed");
    switch(g.range(0, 3))
    {
      case 0:
        from.setConstant(g.real());
        break;
      case 1:
        wei.setConstant(g.real());
        s = g.real();
        break;
      case 2:
        g.log("new destination");
        w.to(block(to, 13, 13, rt, ct));
        break;
      case 3:
        if(F != EXTERNAL) break;
        g.log("new source");
        w.from(block(from, 13, 13, rf, cf));
        break;
    }
    // Avoid the growth of values
    to.setOnes();
  }
  if(M == GENERAL && F != ZERO) g.nontrivial();
}
} // namespace
PROPERTY(vector, 60000, 600000) { assignmentCase<Eigen::VectorXd>(g); }
PROPERTY(matrix, 60000, 600000) { assignmentCase<Eigen::MatrixXd>(g); }

PROPERTY(resolution, 24000, 400000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  hint::internal::Substitutions subs;
  Direct d;
  d.noMalloc = true;
  int kind = g.range(0, 7);
  g.log("solver ", kind);
  GenOptions o;
  if(kind == 7)
  {
    o.maxPriority = 4;
    o.inequalityAtLowPriority = true;
  }
  d.generate(g, w, o, 5);
  bool nt = false;
  for(size_t i = 0; i < d.tasks.size(); ++i) nt = nt || d.bound[i] || d.tasks[i]->type == Type::DOUBLE_SIDED || d.tasks[i]->p > 0;
  int n = g.range(2, 4);
  auto req = [&](size_t i) { return std::make_shared<requirements::SolvingRequirementsWithCallbacks>(d.tasks[i]->requirements()); };
  if(kind == 7)
  {
    solver::LexLSHLSSolverOptions so;
    if(g.coin(1, 3)) so.warmStart(true);
    solver::LexLSHierarchicalLeastSquareSolver solver(so);
    std::vector<int> nEq(1, 0), nIneq(1, 0);
    for(size_t i = 0; i < d.tasks.size(); ++i)
    {
      if(d.bound[i]) continue;
      auto p = static_cast<size_t>(d.tasks[i]->p);
      if(p >= nEq.size())
      {
        nEq.resize(p + 1, 0);
        nIneq.resize(p + 1, 0);
      }
      (d.tasks[i]->type == Type::EQUAL ? nEq : nIneq)[p] += solver.constraintSize(*d.cstr[i]);
    }
    solver.startBuild(d.variables, nEq, nIneq, d.useBounds, &subs);
    for(size_t i = 0; i < d.tasks.size(); ++i)
      if(!d.bound[i]) solver.addConstraint(d.cstr[i], req(i));
    for(size_t i = 0; i < d.tasks.size(); ++i)
      if(d.bound[i]) solver.addBound(d.cstr[i]);
    solver.finalizeBuild();
    for(int j = 0; j < n; ++j) d.solve(g, w, solver, j > 0);
  }
  else
  {
    std::unique_ptr<solver::abstract::LeastSquareSolver> solver;
    switch(kind)
    {
      case 0: solver = std::make_unique<solver::LSSOLLeastSquareSolver>(); break;
      case 1: solver = std::make_unique<solver::QLDLeastSquareSolver>(); break;
      case 2: solver = std::make_unique<solver::QuadprogLeastSquareSolver>(); break;
      case 3: solver = std::make_unique<solver::LexLSLeastSquareSolver>(); break;
      case 4: solver = std::make_unique<solver::QLDLeastSquareSolver>(solver::QLDLSSolverOptions{}.cholesky(true)); break;
      case 5: solver = std::make_unique<solver::QuadprogLeastSquareSolver>(solver::QuadprogLSSolverOptions{}.cholesky(true)); break;
      default: solver = std::make_unique<solver::LexLSLeastSquareSolver>(solver::LexLSLSSolverOptions{}.warmStart(true)); break;
    }
    int nEq = 0, nIneq = 0, nObj = 0, maxp = 0;
    for(size_t i = 0; i < d.tasks.size(); ++i)
    {
      maxp = std::max(maxp, d.tasks[i]->p);
      if(d.bound[i]) continue;
      if(d.tasks[i]->p > 0) nObj += d.tasks[i]->m;
      else
        (d.tasks[i]->type == Type::EQUAL ? nEq : nIneq) += solver->constraintSize(*d.cstr[i]);
    }
    solver->startBuild(d.variables, nObj, nEq, nIneq, d.useBounds, &subs);
    for(size_t i = 0; i < d.tasks.size(); ++i)
    {
      if(d.bound[i]) continue;
      if(d.tasks[i]->p == 0) solver->addConstraint(d.cstr[i]);
      else
        solver->addObjective(d.cstr[i], req(i), std::pow(10., maxp - d.tasks[i]->p));
    }
    for(size_t i = 0; i < d.tasks.size(); ++i)
      if(d.bound[i]) solver->addBound(d.cstr[i]);
    solver->finalizeBuild();
    for(int j = 0; j < n; ++j) d.solve(g, w, *solver, j > 0);
  }
  REQUIRE(utils::is_malloc_allowed(), "the guard was changed by the resolutions");
  if(nt) g.nontrivial();
}
