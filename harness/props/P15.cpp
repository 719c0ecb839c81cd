#include "direct.h"
#include <tvm/scheme/internal/SchemeAbilities.h>
#include <tvm/constraint/BasicLinearConstraint.h>

using namespace ls;

const pbt::Info pbt::info = {
    "P15",
    "problem: 1 to 7 tasks of any type, priority (0 to 3), weights, structure (bounds, diagonal or general) over up to 4 variables (pieces, derivatives, linear functions or quadratic ones with dynamics), for each solver interface and option, "
    "solved once then up to 3 more times after changes of the values of the variables and of the functions. rebuild: a solver used directly for 1 to 3 problems in a row. refused: problems a weighted least-squares can not handle, or with a weight of the wrong size, handled when the faulty task is removed. abilities: declared abilities of up to 4 levels, general or not, against any request. "
    "Non-trivial: at least two tasks and an inequality, a bound or two priorities, or several builds. Distinctness: the sequence of choices."};

PROPERTY(problem, 40000, 2000000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  Scheme s = genScheme(g);
  LinearizedControlProblem pb;
  std::vector<LTaskPtr> tasks;
  GenOptions o;
  o.maxPriority = g.coin(1, 4) ? 3 : 1;
  int n = g.range(1, 7);
  int prio = 0;
  bool ineq = false;
  for(int i = 0; i < n; ++i)
  {
    auto t = genTask(g, w, o);
    g.log(t->desc());
    t->tr = pb.add(*t->task, t->requirements());
    prio |= 1 << t->p;
    ineq = ineq || t->type != Type::EQUAL || t->boundLike();
    tasks.push_back(t);
  }
  int k = 1 + g.weighted({2, 1, 1});
  for(int i = 0; i < k; ++i)
  {
    auto used = usedCoordinates(w, tasks);
    Canon e = expected(w, tasks, s.scalarization, s.autoDamping, used);
    if(!supported(s, e, tasks, used)) throw pbt::Discard();
    auto map = solveAndMap(g, w, pb, *s.s, used);
    compare(e, received(backend::state().last), map);
    w.setAll(g);
    if(g.coin())
      for(auto & t : tasks) t->refill(g);
    g.log("new values");
  }
  if(n >= 2 && (ineq || (prio & (prio - 1)))) g.nontrivial();
  g.tag(s.name.c_str()[0] == 'Q' && s.name.c_str()[1] == 'u' ? "Quadprog" : s.name.c_str()[0] == 'Q' ? "QLD" : s.name.c_str()[1] == 'e' ? "LexLS" : "LSSOL");
}

PROPERTY(refused, 4000, 100000)
{
  World w;
  w.generate(g, 3, 2, true, 3, 1);
  Scheme s = genScheme(g);
  LinearizedControlProblem pb;
  std::vector<LTaskPtr> tasks;
  GenOptions o;
  int n = g.range(0, 3);
  for(int i = 0; i < n; ++i)
  {
    auto t = genTask(g, w, o);
    g.log(t->desc());
    t->tr = pb.add(*t->task, t->requirements());
    tasks.push_back(t);
  }
  auto good = [&]() {
    auto used = usedCoordinates(w, tasks);
    Canon e = expected(w, tasks, s.scalarization, s.autoDamping, used);
    if(!supported(s, e, tasks, used)) throw pbt::Discard();
    auto map = solveAndMap(g, w, pb, *s.s, used);
    compare(e, received(backend::state().last), map);
    w.setAll(g);
  };
  if(n && g.coin()) good();
  o.inequalityAtLowPriority = true;
  int kind = g.range(0, 2);
  auto t = genTask(g, w, o);
  if(kind == 0)
  {
    if(t->type == Type::EQUAL || t->p == 0) throw pbt::Discard();
    t->tr = pb.add(*t->task, t->requirements());
    g.log("inequality ", t->desc());
  }
  else if(kind == 1)
  {
    // The weights are not used at the priority level 0.
    if(t->type != Type::EQUAL || t->p == 0) throw pbt::Discard();
    int sz = t->m + (g.coin() && t->m > 1 ? -1 : g.range(1, 2));
    t->tr = pb.add(*t->task, SolvingRequirements(PriorityLevel(t->p), AnisotropicWeight(g.posVec(sz))));
    g.log("anisotropic weight of size ", sz, " ", t->desc());
  }
  else
  {
    auto v = g.coin() ? ViolationEvaluationType::L1 : ViolationEvaluationType::LINF;
    t->tr = pb.add(*t->task, SolvingRequirements(PriorityLevel(t->p), ViolationEvaluation(v)));
    g.log("violation evaluation ", t->desc());
  }
  int k = g.range(1, 2);
  for(int i = 0; i < k; ++i)
  {
    backend::reset();
    VectorXd before = w.all();
    REQUIRE_THROWS(s.s->solve(pb), std::runtime_error, "");
    REQUIRE(backend::state().nbSolve == 0, "the solver was called");
    REQUIRE(before == w.all(), "the variables were changed");
  }
  g.nontrivial();
  // Solved when the faulty task is removed.
  pb.remove(*t->tr);
  if(n) good();
}

PROPERTY(rebuild, 8000, 400000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  std::unique_ptr<solver::abstract::LeastSquareSolver> solver;
  Scheme s;
  int kind = g.range(0, 6);
  switch(kind)
  {
    case 0:
      solver = std::make_unique<solver::LSSOLLeastSquareSolver>();
      break;
    case 1:
      solver = std::make_unique<solver::QLDLeastSquareSolver>();
      break;
    case 2:
      solver = std::make_unique<solver::QuadprogLeastSquareSolver>();
      break;
    case 3:
      solver = std::make_unique<solver::LexLSLeastSquareSolver>();
      break;
    case 4:
      solver = std::make_unique<solver::QLDLeastSquareSolver>(solver::QLDLSSolverOptions{}.cholesky(true));
      break;
    case 5:
      solver = std::make_unique<solver::QuadprogLeastSquareSolver>(solver::QuadprogLSSolverOptions{}.cholesky(true));
      break;
    case 6:
      solver = std::make_unique<solver::LexLSLeastSquareSolver>(solver::LexLSLSSolverOptions{}.warmStart(true));
      break;
  }
  s.cholesky = kind == 4 || kind == 5;
  g.log("solver ", kind);
  hint::internal::Substitutions subs;
  int nb = g.range(1, 3);
  for(int k = 0; k < nb; ++k)
  {
    s.scalarization = g.pick(std::vector<double>{1000, 1, 10});
    s.autoDamping = g.coin(1, 3);
    GenOptions o;
    Direct d;
    g.log("build", s.autoDamping ? " with damping" : "", ", scalarization ", s.scalarization);
    d.generate(g, w, o, 5);
    int nEq = 0, nIneq = 0, nObj = 0, maxp = 0;
    for(size_t i = 0; i < d.tasks.size(); ++i)
    {
      maxp = std::max(maxp, d.tasks[i]->p);
      if(d.bound[i]) continue;
      if(d.tasks[i]->p > 0) nObj += d.tasks[i]->m;
      else
        (d.tasks[i]->type == Type::EQUAL ? nEq : nIneq) += solver->constraintSize(*d.cstr[i]);
    }
    bool damping = s.autoDamping && nObj == 0;
    if(damping) nObj = d.n;
    auto used = usedCoordinates(w, d.tasks);
    Canon e = expected(w, d.tasks, s.scalarization, s.autoDamping, used);
    if(!supported(s, e, d.tasks, used)) throw pbt::Discard();
    solver->startBuild(d.variables, nObj, nEq, nIneq, d.useBounds, &subs);
    for(size_t i = 0; i < d.tasks.size(); ++i)
    {
      if(d.bound[i]) continue;
      if(d.tasks[i]->p == 0) solver->addConstraint(d.cstr[i]);
      else
        solver->addObjective(d.cstr[i], std::make_shared<requirements::SolvingRequirementsWithCallbacks>(d.tasks[i]->requirements()), std::pow(s.scalarization, maxp - d.tasks[i]->p));
    }
    if(damping) solver->setMinimumNorm();
    for(size_t i = 0; i < d.tasks.size(); ++i)
      if(d.bound[i]) solver->addBound(d.cstr[i]);
    REQUIRE_THROWS(solver->solve(), std::runtime_error, "resolution during the build");
    solver->finalizeBuild();
    auto map = d.map(w);
    int ns = g.range(1, 2);
    for(int j = 0; j < ns; ++j)
    {
      d.solve(g, w, *solver, j > 0);
      e = expected(w, d.tasks, s.scalarization, s.autoDamping, used);
      if(!supported(s, e, d.tasks, used)) throw pbt::Discard();
      compare(e, received(backend::state().last), map);
    }
  }
  if(nb > 1) g.nontrivial();
}

PROPERTY(abilities, 6000, 100000)
{
  using namespace tvm::scheme::internal;
  const ViolationEvaluationType all[3] = {ViolationEvaluationType::L1, ViolationEvaluationType::L2, ViolationEvaluationType::LINF};
  struct Lvl
  {
    bool ineq;
    bool ev[3];
  };
  std::map<int, Lvl> model;
  std::map<int, LevelAbilities> ab;
  const int n = g.coin(1, 3) ? NoLimit : static_cast<int>(g.range(1, 4));
  const bool scal = g.coin();
  auto level = [&](int i) {
    Lvl l;
    l.ineq = g.coin();
    std::vector<ViolationEvaluationType> e;
    for(int k = 0; k < 3; ++k)
    {
      l.ev[k] = g.coin();
      if(l.ev[k]) e.push_back(all[k]);
    }
    model[i] = l;
    ab.insert({i, LevelAbilities(l.ineq, e)});
  };
  for(int i = 0; i < (n < 0 ? 4 : n); ++i)
    if(g.coin(3, 4)) level(i);
  if(g.coin(2, 3)) level(GeneralLevel);
  bool general = model.count(GeneralLevel) != 0, complete = general;
  if(!general && n > 0)
  {
    complete = true;
    for(int i = 0; i < n; ++i) complete = complete && model.count(i);
  }
  g.log("levels: ", n, ", scalarization: ", scal, ", general: ", general, ", complete: ", complete);
  if(!complete)
  {
    REQUIRE_THROWS(SchemeAbilities(n, ab, scal), std::runtime_error, "incomplete abilities");
    return;
  }
  REQUIRE_THROWS(SchemeAbilities(-2 - static_cast<int>(g.range(0, 3)), ab, scal), std::runtime_error, "negative number of levels");
  SchemeAbilities a(n, ab, scal);
  struct Quiet
  {
    std::streambuf * b = std::cout.rdbuf(nullptr);
    ~Quiet() { std::cout.rdbuf(b); }
  };
  VariablePtr x = tvm::Space(2).createVariable("x");
  bool yes = false, no = false;
  for(int k = 0; k < 6; ++k)
  {
    const int p = static_cast<int>(g.range(0, 5));
    const Type t = g.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED});
    const int e = static_cast<int>(g.range(0, 2));
    auto c = std::make_shared<tvm::constraint::BasicLinearConstraint>(2, x, t);
    auto req = std::make_shared<SolvingRequirements>(PriorityLevel(p), ViolationEvaluation(all[e]));
    g.log("priority ", p, ", type ", static_cast<int>(t), ", evaluation ", e);
    bool ok = n < 0 || p < n || scal;
    if(ok)
    {
      const auto it = model.count(p) ? model.find(p) : model.find(GeneralLevel);
      ok = it != model.end() && (t == Type::EQUAL || it->second.ineq) && it->second.ev[e];
    }
    bool accepted = true;
    try
    {
      Quiet q;
      a.check(c, req, g.coin());
    }
    catch(const std::exception &)
    {
      accepted = false;
    }
    REQUIRE(accepted == ok, "the request is ", accepted ? "accepted" : "refused");
    (ok ? yes : no) = true;
  }
  if(yes && no) g.nontrivial();
}
