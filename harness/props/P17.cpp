#include "subproblem.h"
#include "direct.h"
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/solver/LexLSHierarchicalLeastSquareSolver.h>

using namespace ls;

const pbt::Info pbt::info = {
    "P17",
    "problem: 1 to 7 tasks of any type on any (sub)variables, priority levels 0 to 4, weights, with or without damping, feasible first level and warm start, solved one to three times with different data; "
    "history: additions, removals, weight changes, data changes and resolutions with up to two schemes, a resolution following a change being either refused or right, and right the next time; "
    "substitutions: 1 to 2 full rank substitutions in such a problem, seen through the values given to the variables; "
    "refused: a task with another violation evaluation than L2 or an anisotropic weight of the wrong size makes the resolution throw, the solver not being called, and the problem is solved once it is removed; rebuild: the solver, used directly, on two to three problems in a row. The levels received by the solver, without their trivial rows, are compared to the expected ones. "
    "Non-trivial: at least two levels with rows, one of them having several tasks (problem, substitutions), a resolution after a change (history), or several builds (rebuild). Distinctness: the sequence of choices."};

namespace
{
struct HScheme
{
  std::unique_ptr<scheme::HierarchicalLeastSquares> s;
  bool autoDamping = false, feasible = false;
};
HScheme genHScheme(Gen & g)
{
  HScheme r;
  scheme::HierarchicalLeastSquaresOptions o;
  if(g.coin(1, 3))
  {
    r.autoDamping = true;
    o.autoDamping(true);
  }
  solver::LexLSHLSSolverOptions so;
  if(g.coin(1, 3))
  {
    r.feasible = true;
    so.feasibleFirstLevel(true);
  }
  bool warm = g.coin(1, 3);
  if(warm) so.warmStart(true);
  if(g.coin()) r.s = std::make_unique<scheme::HierarchicalLeastSquares>(so, o);
  else
    r.s = std::make_unique<scheme::HierarchicalLeastSquares>(solver::LexLSHLSSolverFactory(so), o);
  if(g.coin(1, 4)) r.s->big_number(1e10);
  g.log("hierarchical scheme", r.autoDamping ? ", damping" : "", r.feasible ? ", feasible first level" : "", warm ? ", warm start" : "");
  return r;
}

/** l <= a x <= u*/
struct Row
{
  VectorXd a;
  double l, u;
  bool free = false; // defined up to a positive factor
};
struct Level
{
  std::vector<Row> rows;
  void add(const VectorXd & a, double l, double u, bool free = false)
  {
    l = l < -BIG ? -inf : l;
    u = u > BIG ? inf : u;
    if(l == -inf && u == inf) return;
    REQUIRE(a.allFinite() && !std::isnan(l) && !std::isnan(u), "not a number");
    if(a.size() == 0 || a.cwiseAbs().maxCoeff() < 1e-9)
    {
      if(l < 1e-9 && u > -1e-9) return; // nothing
    }
    rows.push_back({a, l, u, free});
  }
};
std::string show(const std::vector<Level> & ls)
{
  std::ostringstream s;
  for(size_t i = 0; i < ls.size(); ++i)
  {
    s << "level " << i << "\n";
    for(auto & r : ls[i].rows) s << "  " << r.l << " <= " << r.a.transpose() << " <= " << r.u << (r.free ? " (unscaled)" : "") << "\n";
  }
  return s.str();
}
void clean(std::vector<Level> & l)
{
  l.erase(std::remove_if(l.begin(), l.end(), [](const Level & v) { return v.rows.empty(); }), l.end());
}
bool closeTo(double a, double b) { return a == b || std::abs(a - b) < 1e-7 * (1 + std::abs(a)); }
bool matchRow(Row e, Row r)
{
  auto same = [](const Row & a, const Row & b) {
    if(a.a.size() && (a.a - b.a).cwiseAbs().maxCoeff() > 1e-7 * (1 + a.a.cwiseAbs().maxCoeff())) return false;
    return closeTo(a.l, b.l) && closeTo(a.u, b.u);
  };
  if(e.free && e.a.size())
  {
    for(Row * k : {&e, &r})
    {
      double n = k->a.norm();
      if(n < 1e-12) return false;
      k->a /= n;
      k->l /= n;
      k->u /= n;
    }
  }
  Row o = {-r.a, -r.u, -r.l, false};
  return same(e, r) || same(e, o);
}
/** Intersects the rows that are multiples of a single coordinate*/
void mergeBounds(Level & l)
{
  Level res;
  std::map<int, Row> bounds;
  for(auto & r : l.rows)
  {
    int nz = 0, k = -1;
    for(int i = 0; i < r.a.size(); ++i)
      if(r.a[i] != 0)
      {
        ++nz;
        k = i;
      }
    if(!(r.free && nz == 1))
    {
      res.rows.push_back(r);
      continue;
    }
    double s = r.a[k], lo = r.l / s, up = r.u / s;
    if(s < 0) std::swap(lo, up);
    auto it = bounds.find(k);
    if(it == bounds.end()) bounds[k] = {VectorXd(r.a / s), lo, up, true};
    else
    {
      it->second.l = std::max(it->second.l, lo);
      it->second.u = std::min(it->second.u, up);
    }
  }
  for(auto & b : bounds) res.rows.push_back(b.second);
  l = res;
}

/** Expected levels in coordinates X = P s + p. Bounds are the tasks of level 0 on a single variable, with a diagonal matrix.*/
std::vector<Level> expectedLevels(const World & w, const std::vector<LTaskPtr> & tasks, const HScheme & s, int n, const MatrixXd & P, const VectorXd & p, const SubProblem * sp = nullptr)
{
  int maxp = -1;
  for(auto & t : tasks) maxp = std::max(maxp, t->p);
  std::vector<Level> res(static_cast<size_t>(maxp) + 3);
  for(auto & t : tasks)
  {
    MatrixXd J;
    VectorXd l, u;
    t->rows(w, J, l, u);
    MatrixXd JP = J * P;
    VectorXd Jp = J * p;
    for(int i = 0; i < t->m; ++i)
    {
      bool bound = t->p == 0 && t->boundLike();
      if(sp && bound)
        for(int c : sp->coords(*t->unknown(0))) bound = bound && !sp->substituted(c);
      double k = std::sqrt(t->weight * (t->hasAniso ? t->aniso[i] : 1));
      if(bound)
      {
        res[0].add(JP.row(i).transpose(), l[i] - Jp[i], u[i] - Jp[i], true);
      }
      else if(k != 0)
        res[static_cast<size_t>(t->p) + 1].add(k * JP.row(i).transpose(), k * (l[i] - Jp[i]), k * (u[i] - Jp[i]));
    }
  }
  if(s.autoDamping)
    for(int i = 0; i < n; ++i) res.back().add(VectorXd::Unit(n, i), 0, 0);
  mergeBounds(res[0]);
  if(!s.feasible)
  {
    res[1].rows.insert(res[1].rows.end(), res[0].rows.begin(), res[0].rows.end());
    res[0].rows.clear();
  }
  clean(res);
  return res;
}
std::vector<Level> receivedLevels(const backend::Problem & p)
{
  std::vector<Level> res;
  for(auto & l : p.levels)
  {
    res.push_back({});
    for(Eigen::Index i = 0; i < l.A.rows(); ++i) res.back().add(l.A.row(i).transpose(), l.l[i], l.u[i]);
  }
  clean(res);
  return res;
}
void compareLevels(const std::vector<Level> & e, const std::vector<Level> & r)
{
  std::string both = "received\n" + show(r) + "expected\n" + show(e);
  REQUIRE(e.size() == r.size(), "number of (non-empty) levels\n", both);
  for(size_t i = 0; i < e.size(); ++i)
  {
    std::vector<bool> used(r[i].rows.size(), false);
    for(auto & k : e[i].rows)
    {
      bool found = false;
      for(size_t j = 0; j < used.size() && !found; ++j)
        if(!used[j] && matchRow(k, r[i].rows[j])) used[j] = found = true;
      REQUIRE(found, "level ", i, ", missing row ", k.l, " <= ", k.a.transpose(), " <= ", k.u, "\n", both);
    }
    for(bool u : used) REQUIRE(u, "unexpected row in level ", i, "\n", both);
  }
}
/** Conversion from mapping to P*/
MatrixXd toP(const World & w, const std::vector<int> & map)
{
  MatrixXd P = MatrixXd::Zero(w.N, static_cast<int>(map.size()));
  for(size_t i = 0; i < map.size(); ++i) P(map[i], static_cast<int>(i)) = 1;
  return P;
}
void solveAndCompare(Gen & g, World & w, LinearizedControlProblem & pb, HScheme & s, const std::vector<LTaskPtr> & tasks)
{
  auto used = usedCoordinates(w, tasks);
  // the tasks depend on the values of variables that might be modified by the resolution
  VectorXd before = w.all();
  auto map = solveAndMap(g, w, pb, *s.s, used);
  auto last = backend::state().last;
  VectorXd after = w.all();
  w.setAll(before);
  MatrixXd P = toP(w, map);
  auto e = expectedLevels(w, tasks, s, static_cast<int>(map.size()), P, VectorXd::Zero(w.N));
  compareLevels(e, receivedLevels(last));
  w.setAll(after);
}
GenOptions options()
{
  GenOptions o;
  o.maxPriority = 4;
  o.inequalityAtLowPriority = true;
  o.maxRows = 4;
  return o;
}
bool interesting(const std::vector<LTaskPtr> & tasks)
{
  std::map<int, int> n;
  for(auto & t : tasks) ++n[t->p];
  bool several = false;
  for(auto & k : n) several = several || k.second > 1;
  return several && n.size() > 1;
}
} // namespace

PROPERTY(problem, 20000, 1500000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  HScheme s = genHScheme(g);
  LinearizedControlProblem pb;
  std::vector<LTaskPtr> tasks;
  GenOptions o = options();
  int nt = g.range(1, 7);
  for(int i = 0; i < nt; ++i)
  {
    auto t = genTask(g, w, o);
    g.log("task ", t->desc());
    t->tr = pb.add(*t->task, t->requirements());
    tasks.push_back(t);
  }
  int n = g.range(1, 3);
  for(int i = 0; i < n; ++i)
  {
    if(i)
    {
      g.log("new data");
      for(auto & t : tasks)
        if(g.coin()) t->refill(g);
      w.setAll(g);
    }
    solveAndCompare(g, w, pb, s, tasks);
  }
  if(interesting(tasks)) g.nontrivial();
}

PROPERTY(history, 12000, 700000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  std::vector<HScheme> schemes;
  int ns = g.coin(1, 4) ? 2 : 1;
  for(int i = 0; i < ns; ++i) schemes.push_back(genHScheme(g));
  LinearizedControlProblem pb;
  std::vector<LTaskPtr> tasks, removed;
  GenOptions o = options();
  std::vector<bool> changed(schemes.size(), false), solved(schemes.size(), false);
  auto change = [&]() { std::fill(changed.begin(), changed.end(), true); };
  auto solve = [&](size_t i) {
    g.log("solve with ", i);
    HScheme & s = schemes[i];
    bool mayThrow = changed[i] && solved[i];
    changed[i] = false;
    if(tasks.empty())
    {
      VectorXd before = w.all();
      backend::reset();
      try
      {
        s.s->solve(pb);
      }
      catch(const std::runtime_error & e)
      {
        REQUIRE(mayThrow, "unexpected exception ", e.what());
      }
      REQUIRE(before == w.all(), "the variables were changed");
      solved[i] = true;
      return;
    }
    try
    {
      solveAndCompare(g, w, pb, s, tasks);
    }
    catch(const std::runtime_error & e)
    {
      REQUIRE(mayThrow, "unexpected exception ", e.what());
      g.tag("refused change");
      solveAndCompare(g, w, pb, s, tasks);
    }
    if(mayThrow) g.nontrivial();
    solved[i] = true;
    w.setAll(g);
  };
  int n = g.range(2, 14);
  for(int k = 0; k < n; ++k)
  {
    switch(g.weighted({5, 3, 1, 2, 1, 6}))
    {
      case 0:
      {
        auto t = genTask(g, w, o);
        t->tr = pb.add(*t->task, t->requirements());
        g.log("add ", t->desc());
        tasks.push_back(t);
        change();
        break;
      }
      case 1:
      {
        if(tasks.empty()) break;
        size_t i = g.draw(tasks.size());
        g.log("remove ", tasks[i]->desc());
        pb.remove(*tasks[i]->tr);
        removed.push_back(tasks[i]);
        tasks.erase(tasks.begin() + static_cast<int>(i));
        change();
        break;
      }
      case 2:
      {
        if(removed.empty()) break;
        size_t i = g.draw(removed.size());
        g.log("re-add ", removed[i]->desc());
        pb.add(removed[i]->tr);
        tasks.push_back(removed[i]);
        removed.erase(removed.begin() + static_cast<int>(i));
        change();
        break;
      }
      case 3:
      {
        if(tasks.empty()) break;
        auto & t = tasks[g.draw(tasks.size())];
        if(g.coin())
        {
          t->weight = g.positive(4);
          t->hasWeight = true;
          g.log("weight of ", t->desc());
          if(g.coin(1, 3))
            t->tr->requirements.weight() = Weight(t->weight);
          else
            t->tr->requirements.weight() = t->weight;
        }
        else
        {
          t->aniso = g.posVec(t->m, 4);
          t->hasAniso = true;
          g.log("anisotropic weight of ", t->desc());
          if(g.coin(1, 3))
            t->tr->requirements.anisotropicWeight() = AnisotropicWeight(t->aniso);
          else
            t->tr->requirements.anisotropicWeight() = t->aniso;
        }
        change();
        break;
      }
      case 4:
        g.log("new values of the functions");
        for(auto & t : tasks) t->refill(g);
        break;
      case 5:
        solve(g.draw(schemes.size()));
        break;
    }
  }
  for(size_t i = 0; i < schemes.size(); ++i) solve(i);
}

PROPERTY(substitutions, 8000, 400000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  HScheme s = genHScheme(g);
  LinearizedControlProblem pb;
  SubProblem sp(g, w, pb);
  int ns = g.range(1, 2);
  for(int i = 0; i < ns; ++i)
  {
    auto u = sp.genSub();
    if(!u || u->r != u->m) continue;
    sp.log(*u);
    sp.subs.push_back(u);
  }
  if(sp.subs.empty()) throw pbt::Discard();
  GenOptions o = options();
  int nt = g.range(1, 5);
  for(int i = 0; i < nt; ++i)
  {
    auto t = genTask(g, w, o);
    g.log("task ", t->desc());
    t->tr = pb.add(*t->task, t->requirements());
    sp.tasks.push_back(t);
  }
  for(auto & u : sp.subs) sp.give(u);
  int n = g.range(1, 2);
  for(int k = 0; k < n; ++k)
  {
    if(k)
    {
      g.log("new data");
      for(auto & t : sp.allTasks()) t->refill(g);
    }
    w.setAll(g);
    bool refuse = sp.refusable();
    auto used = usedCoordinates(w, sp.allTasks());
    VectorXd X0 = w.all();
    std::vector<MatrixXd> A;
    std::vector<VectorXd> b;
    for(auto & u : sp.subs)
      for(auto & t : u->tasks)
      {
        MatrixXd J;
        VectorXd l, up;
        t->rows(w, J, l, up);
        A.push_back(J);
        b.push_back(l);
      }
    auto one = [&](const VectorXd & x) {
      w.setAll(X0);
      backend::reset();
      backend::state().solve = [&](const backend::Problem & p) { return x.size() ? x : VectorXd(VectorXd::Zero(p.n)); };
      REQUIRE(s.s->solve(pb), "the resolution failed");
      REQUIRE(backend::state().misuse.empty(), "misuse of the solver: ", backend::state().misuse);
      VectorXd X = w.all();
      REQUIRE(X.allFinite(), "non-finite values ", X.transpose());
      for(int i = 0; i < w.N; ++i)
        if(!used[static_cast<size_t>(i)]) REQUIRE(X[i] == X0[i], "coordinate ", i, " changed although it is not in the problem");
      for(size_t i = 0; i < A.size(); ++i)
        REQUIRE((A[i] * X - b[i]).cwiseAbs().maxCoeff() < 1e-7 * (1 + X.cwiseAbs().maxCoeff()), "the substituted constraints are not satisfied");
      return X;
    };
    VectorXd p;
    try
    {
      p = one(VectorXd());
    }
    catch(const std::runtime_error & e)
    {
      REQUIRE(refuse, "unexpected exception: ", e.what());
      g.tag("refused");
      return;
    }
    if(p.cwiseAbs().maxCoeff() > 1e3) throw pbt::Discard();
    if(backend::state().nbSolve == 0)
    {
      g.tag("no resolution");
      return;
    }
    auto last = backend::state().last;
    MatrixXd P(w.N, last.n);
    for(int i = 0; i < last.n; ++i) P.col(i) = one(VectorXd::Unit(last.n, i)) - p;
    if(last.n && P.cwiseAbs().maxCoeff() > 1e3) throw pbt::Discard();
    w.setAll(X0);
    auto e = expectedLevels(w, sp.tasks, s, last.n, P, p, &sp);
    auto r = receivedLevels(last);
    compareLevels(e, r);
    if(interesting(sp.tasks) && sp.interesting) g.nontrivial();
  }
}

PROPERTY(refused, 3000, 100000)
{
  World w;
  w.generate(g, 3, 2, true, 3, 1);
  w.setAll(g);
  HScheme s = genHScheme(g);
  LinearizedControlProblem pb;
  std::vector<LTaskPtr> tasks;
  GenOptions o = options();
  int n = g.range(0, 4);
  for(int i = 0; i < n; ++i)
  {
    auto t = genTask(g, w, o);
    g.log(t->desc());
    t->tr = pb.add(*t->task, t->requirements());
    tasks.push_back(t);
  }
  bool before = n && g.coin();
  if(before)
  {
    solveAndCompare(g, w, pb, s, tasks);
    w.setAll(g);
  }
  auto t = genTask(g, w, o);
  if(t->boundLike() && t->p == 0) throw pbt::Discard(); // the weights of the bounds are not used
  std::shared_ptr<TaskWithRequirements> tr;
  if(g.coin())
  {
    auto v = g.coin() ? ViolationEvaluationType::L1 : ViolationEvaluationType::LINF;
    tr = pb.add(*t->task, SolvingRequirements(PriorityLevel(t->p), ViolationEvaluation(v)));
    g.log("violation evaluation ", t->desc());
  }
  else
  {
    int sz = t->m + (g.coin() && t->m > 1 ? -1 : g.range(1, 2));
    tr = pb.add(*t->task, SolvingRequirements(PriorityLevel(t->p), AnisotropicWeight(g.posVec(sz))));
    g.log("anisotropic weight of size ", sz, " ", t->desc());
  }
  int k = g.range(1, 2);
  for(int i = 0; i < k; ++i)
  {
    backend::reset();
    VectorXd x = w.all();
    REQUIRE_THROWS(s.s->solve(pb), std::runtime_error, "");
    REQUIRE(backend::state().nbSolve == 0, "the solver was called");
    REQUIRE(x == w.all(), "the variables were changed");
  }
  g.nontrivial();
  pb.remove(*tr);
  if(tasks.empty()) return;
  try
  {
    solveAndCompare(g, w, pb, s, tasks);
  }
  catch(const std::runtime_error &)
  {
    g.tag("removal refused"); // a change after a resolution may be refused, once
    solveAndCompare(g, w, pb, s, tasks);
  }
}

PROPERTY(rebuild, 6000, 300000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  solver::LexLSHLSSolverOptions so;
  HScheme s;
  if(g.coin(1, 3))
  {
    s.feasible = true;
    so.feasibleFirstLevel(true);
  }
  if(g.coin(1, 3)) so.warmStart(true);
  solver::LexLSHierarchicalLeastSquareSolver solver(so);
  hint::internal::Substitutions subs;
  int nb = g.range(1, 3);
  for(int k = 0; k < nb; ++k)
  {
    s.autoDamping = g.coin(1, 3);
    g.log("build", s.autoDamping ? " with damping" : "");
    Direct d;
    d.generate(g, w, options(), 5);
    std::vector<int> nEq(1, 0), nIneq(1, 0);
    for(size_t i = 0; i < d.tasks.size(); ++i)
      if(!d.bound[i])
      {
        auto p = static_cast<size_t>(d.tasks[i]->p);
        if(p >= nEq.size())
        {
          nEq.resize(p + 1, 0);
          nIneq.resize(p + 1, 0);
        }
        (d.tasks[i]->type == Type::EQUAL ? nEq : nIneq)[p] += solver.constraintSize(*d.cstr[i]);
      }
    if(s.autoDamping)
    {
      nEq.push_back(d.n);
      nIneq.push_back(0);
    }
    solver.startBuild(d.variables, nEq, nIneq, d.useBounds, &subs);
    for(size_t i = 0; i < d.tasks.size(); ++i)
      if(!d.bound[i]) solver.addConstraint(d.cstr[i], std::make_shared<requirements::SolvingRequirementsWithCallbacks>(d.tasks[i]->requirements()));
    if(s.autoDamping) solver.setMinimumNorm();
    for(size_t i = 0; i < d.tasks.size(); ++i)
      if(d.bound[i]) solver.addBound(d.cstr[i]);
    REQUIRE_THROWS(solver.solve(), std::runtime_error, "resolution during the build");
    solver.finalizeBuild();
    MatrixXd P = toP(w, d.map(w));
    int ns = g.range(1, 2);
    for(int j = 0; j < ns; ++j)
    {
      d.solve(g, w, solver, j > 0);
      auto e = expectedLevels(w, d.tasks, s, d.n, P, VectorXd::Zero(w.N));
      compareLevels(e, receivedLevels(backend::state().last));
    }
  }
  if(nb > 1) g.nontrivial();
}
