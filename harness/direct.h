// Direct use of the solvers: constraints, variables and sizes for a set of tasks, without any problem nor scheme.
#pragma once
#include "lsproblem.h"
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/internal/VariableCountingVector.h>

namespace ls
{
struct Direct
{
  std::vector<LTaskPtr> tasks;
  std::vector<std::shared_ptr<constraint::internal::LinearizedTaskConstraint>> cstr;
  std::vector<bool> bound;
  bool useBounds = false;
  /** Forbid allocations during the resolutions.*/
  bool noMalloc = false;
  tvm::internal::VariableCountingVector counting;
  VariableVector variables;
  int n = 0;
  graph::CallGraph gr;

  void generate(Gen & g, World & w, const GenOptions & o, int maxTasks)
  {
    auto in = std::make_shared<graph::internal::Inputs>();
    int nt = g.range(1, maxTasks);
    for(int i = 0; i < nt; ++i)
    {
      auto t = genTask(g, w, o);
      g.log("task ", t->desc());
      tasks.push_back(t);
      auto c = std::make_shared<constraint::internal::LinearizedTaskConstraint>(*t->task);
      cstr.push_back(c);
      in->addInput(c, tvm::internal::FirstOrderProvider::Output::Jacobian);
      if(t->type == Type::EQUAL) in->addInput(c, constraint::abstract::Constraint::Output::E);
      if(t->type == Type::GREATER_THAN || t->type == Type::DOUBLE_SIDED) in->addInput(c, constraint::abstract::Constraint::Output::L);
      if(t->type == Type::LOWER_THAN || t->type == Type::DOUBLE_SIDED) in->addInput(c, constraint::abstract::Constraint::Output::U);
      counting.add(c->variables());
      bound.push_back(t->p == 0 && t->boundLike());
      useBounds = useBounds || bound.back();
    }
    gr.add(in);
    gr.update();
    gr.execute();
    variables = counting.variables();
    n = variables.totalSize();
  }
  /** Mapping from index for the solver to coordinates in the world*/
  std::vector<int> map(const World & w) const
  {
    std::vector<int> m(static_cast<size_t>(n), -1);
    for(const auto & v : variables)
    {
      auto r = v->getMappingIn(variables);
      for(int i = 0; i < r.dim; ++i) m[static_cast<size_t>(r.start + i)] = w.start(*v) + i;
    }
    return m;
  }
  /** Solve, after having given new values if asked for*/
  template<typename S>
  void solve(Gen & g, World & w, S & solver, bool newData)
  {
    if(newData)
    {
      g.log("new data");
      for(auto & t : tasks) t->refill(g);
      w.setAll(g);
      gr.execute();
    }
    backend::reset();
    bool success = !g.coin(1, 8);
    backend::state().success = success;
    VectorXd x = g.bulkVec(n);
    backend::state().solve = [&](const backend::Problem &) { return x; };
    bool r;
    if(noMalloc)
    {
      NoMalloc guard;
      r = solver.solve();
    }
    else
      r = solver.solve();
    REQUIRE(r == success, "value returned by solve");
    REQUIRE(backend::state().misuse.empty(), "misuse of the solver: ", backend::state().misuse);
    REQUIRE(backend::state().nbSolve == 1, "number of resolutions");
    REQUIRE(solver.result() == x, "the result is not the one of the solver");
    backend::state().solve = nullptr;
  }
};
} // namespace ls
