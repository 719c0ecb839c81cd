// Random (linearized) control problems, what a least-squares solver should receive for them, and a comparison with what it received.
#pragma once
#include "backend.h"
#include "world.h"
#include <Eigen/Eigenvalues>
#include <functional>
#include <tvm/ControlProblem.h>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/scheme/WeightedLeastSquares.h>
#include <tvm/solver/LSSOLLeastSquareSolver.h>
#include <tvm/solver/LexLSLeastSquareSolver.h>
#include <tvm/solver/QLDLeastSquareSolver.h>
#include <tvm/solver/QuadprogLeastSquareSolver.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/Proportional.h>

namespace ls
{
using namespace vars;
using constraint::Type;
using function::BasicLinearFunction;
using tvm::internal::MatrixProperties;
using requirements::AnisotropicWeight;
using requirements::PriorityLevel;
using requirements::SolvingRequirements;
using requirements::ViolationEvaluation;
using requirements::ViolationEvaluationType;
using requirements::Weight;

constexpr double inf = std::numeric_limits<double>::infinity();
constexpr double BIG = 1e9; // anything bigger is infinity

inline const char * typeName(Type t)
{
  switch(t)
  {
    case Type::EQUAL:
      return "==";
    case Type::GREATER_THAN:
      return ">=";
    case Type::LOWER_THAN:
      return "<=";
    default:
      return "<<";
  }
}

/** A task, with enough information to know its constraint without relying on TVM.*/
struct LTask
{
  std::vector<Piece> x;
  int m = 0;
  Type type = Type::EQUAL;
  VectorXd l, u; // right-hand sides
  // requirements
  int p = 0;
  bool hasWeight = false, hasAniso = false;
  double weight = 1;
  VectorXd aniso;
  // function
  enum Kind
  {
    Linear, // linear function, no dynamics
    Quadratic // quadratic function with proportional dynamics: the unknowns are the derivatives
  } kind = Linear;
  enum Shape
  {
    General,
    Diagonal,
    Identity,
    MinusIdentity,
    Multiple
  } shape = General;
  MatrixXd A; // concatenation for x
  VectorXd b;
  std::shared_ptr<BasicLinearFunction> lin;
  QuadFunPtr quad;
  double kp = 1;
  std::function<void(MatrixXd &)> adjust; // applied to A after it has been drawn
  std::shared_ptr<Task> task;
  TaskWithRequirementsPtr tr;

  /** The i-th unknown*/
  VariablePtr unknown(size_t i) const { return kind == Linear ? x[i].p : dot(x[i].p); }

  bool boundLike() const { return x.size() == 1 && shape != General; }

  /** l <= J X <= u with X all the coordinates of the world*/
  void rows(const World & w, MatrixXd & J, VectorXd & lo, VectorXd & up) const
  {
    J = MatrixXd::Zero(m, w.N);
    int s = 0;
    MatrixXd a;
    VectorXd v;
    if(kind == Linear)
    {
      a = A;
      v = b;
    }
    else
    {
      VectorXd X(A.cols());
      int k = 0;
      for(auto & q : x)
      {
        X.segment(k, q.size) = q.p->value();
        k += q.size;
      }
      a = quad->jac(X);
      v = quad->val(X);
    }
    for(auto & q : x)
    {
      J.middleCols(w.start(q, kind == Linear ? q.d : q.d + 1), q.size) += a.middleCols(s, q.size);
      s += q.size;
    }
    double k = kind == Linear ? 1 : kp;
    lo = type == Type::LOWER_THAN ? VectorXd(VectorXd::Constant(m, -inf)) : VectorXd(k * (l - v));
    up = type == Type::GREATER_THAN ? VectorXd(VectorXd::Constant(m, inf)) : VectorXd(k * (u - v));
  }

  void fillA(Gen & g)
  {
    int n = 0;
    for(auto & q : x) n += q.size;
    // the shape is the one of the matrix of the first variable
    if(n > m || shape == General) A = g.bulk(m, n);
    else
      A.resize(m, n);
    switch(shape)
    {
      case General:
        break;
      case Diagonal:
      {
        VectorXd d = g.bulkVec(m, 1);
        for(int i = 0; i < m; ++i) d[i] = d[i] >= 0 ? .5 + d[i] : -.5 + d[i];
        A.leftCols(m) = d.asDiagonal();
        break;
      }
      case Identity:
        A.leftCols(m).setIdentity();
        break;
      case MinusIdentity:
        A.leftCols(m) = -MatrixXd::Identity(m, m);
        break;
      case Multiple:
      {
        double k = g.nonZero(3);
        A.leftCols(m) = k * MatrixXd::Identity(m, m);
        break;
      }
    }
    if(adjust) adjust(A);
    b = g.bulkVec(m);
  }
  /** Give A and b to the function*/
  void give()
  {
    if(kind != Linear) return;
    int s = 0;
    for(auto & q : x)
    {
      MatrixProperties mp;
      using MP = MatrixProperties;
      switch(s == 0 ? shape : General)
      {
        case General:
          break;
        case Diagonal:
          mp = MP(MP::Shape::DIAGONAL, MP::Invertibility(true));
          break;
        case Identity:
          mp = MP(MP::Shape::IDENTITY);
          break;
        case MinusIdentity:
          mp = MP(MP::Shape::MINUS_IDENTITY);
          break;
        case Multiple:
          mp = MP(MP::Shape::MULTIPLE_OF_IDENTITY, MP::Invertibility(true));
          break;
      }
      lin->A(A.middleCols(s, q.size), *q.p, mp);
      s += q.size;
    }
    lin->b(b);
  }
  /** New values for the function*/
  void refill(Gen & g)
  {
    if(kind != Linear) return;
    fillA(g);
    give();
  }

  SolvingRequirements requirements() const
  {
    if(hasWeight && hasAniso) return SolvingRequirements(PriorityLevel(p), Weight(weight), AnisotropicWeight(aniso));
    if(hasWeight) return SolvingRequirements(PriorityLevel(p), Weight(weight));
    if(hasAniso) return SolvingRequirements(PriorityLevel(p), AnisotropicWeight(aniso));
    return SolvingRequirements(PriorityLevel(p));
  }

  std::string desc() const
  {
    std::ostringstream s;
    s << (kind == Linear ? "linear" : "quadratic") << (shape == General ? "" : shape == Diagonal ? " diagonal" : shape == Identity ? " identity" : shape == MinusIdentity ? " -identity" : " multiple of identity");
    s << " " << m << " rows " << typeName(type) << " on";
    for(auto & q : x) s << " " << q.name;
    s << ", priority " << p;
    if(hasWeight) s << " weight " << weight;
    if(hasAniso) s << " anisotropic " << aniso.transpose();
    return s.str();
  }
};
using LTaskPtr = std::shared_ptr<LTask>;

struct GenOptions
{
  int maxPriority = 2;
  bool inequalityAtLowPriority = false;
  bool infinite = true;
  int maxd = 1; // maximum order of the variables
  int maxRows = 5;
  bool quadratic = true;
  bool invalid = false; // inequality at a priority level greater than 0
};

/** Complete the task from x, m, kind, shape, type, p and adjust*/
inline void finishTask(Gen & g, LTaskPtr t, const GenOptions & o)
{
  t->fillA(g);
  std::vector<VariablePtr> xs;
  for(auto & q : t->x) xs.push_back(q.p);
  if(t->kind == LTask::Linear)
  {
    t->lin = std::make_shared<BasicLinearFunction>(t->m, xs);
    t->give();
  }
  else
  {
    t->quad = genQuad(g, t->m, xs);
    t->A = t->quad->A;
    t->kp = g.positive(3);
  }
  t->l = g.bulkVec(t->m);
  t->u = t->type == Type::DOUBLE_SIDED ? VectorXd(t->l.array() + g.bulkVec(t->m, 1).array().abs() + .1) : t->l;
  if(o.infinite && t->type == Type::DOUBLE_SIDED && t->kind == LTask::Linear)
    for(int i = 0; i < t->m; ++i)
    {
      if(g.coin(1, 12)) t->l[i] = -inf;
      if(g.coin(1, 12)) t->u[i] = inf;
    }
  if(g.coin()) { t->hasWeight = true; t->weight = g.coin(1, 8) ? 0 : g.positive(4); }
  if(g.coin(1, 4)) { t->hasAniso = true; t->aniso = g.posVec(t->m, 4); }
  FunctionPtr f = t->kind == LTask::Linear ? FunctionPtr(t->lin) : FunctionPtr(t->quad);
  auto make = [&](const task_dynamics::abstract::TaskDynamics & td) {
    if(t->type == Type::DOUBLE_SIDED) return std::make_shared<Task>(f, t->type, td, t->l, t->u);
    return std::make_shared<Task>(f, t->type, td, t->l);
  };
  if(t->kind == LTask::Linear) t->task = make(task_dynamics::None());
  else
    t->task = make(task_dynamics::Proportional(t->kp));
}

inline LTaskPtr genTask(Gen & g, World & w, const GenOptions & o)
{
  auto t = std::make_shared<LTask>();
  t->p = !o.invalid && g.coin() ? 0 : g.range(1, o.maxPriority);
  t->type = o.invalid ? g.pick(std::vector<Type>{Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED}) : (t->p > 0 && !o.inequalityAtLowPriority) || g.coin(1, 3) ? Type::EQUAL : g.pick(std::vector<Type>{Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED});
  bool single = g.coin(1, 3);
  t->kind = !single && o.quadratic && g.coin(1, 4) ? LTask::Quadratic : LTask::Linear;
  if(single) { t->x = {w.eucl(g, o.maxd)}; if(!t->x[0].p->isEuclidean()) single = false; }
  if(single) {}
  else
  {
    for(auto & q : w.disjoint(g, g.range(1, 4), t->kind == LTask::Linear ? o.maxd : 0))
      if(q.p->isEuclidean()) t->x.push_back(q);
    if(t->x.empty()) throw pbt::Discard();
  }
  if(single)
  {
    t->shape = static_cast<LTask::Shape>(g.range(1, 4));
    t->m = t->x[0].size;
  }
  else
    t->m = g.range(1, o.maxRows);
  finishTask(g, t, o);
  return t;
}

/** min 1/2 x^T H x + g^T x s.t. rows (a, b): a^T x <= b, |a| = 1, without redundancy between parallel rows*/
struct Canon
{
  int n = 0;
  MatrixXd H;
  VectorXd g;
  std::vector<std::pair<VectorXd, double>> rows;
  bool infeasible = false; // some row reads 0 <= negative
  double eps = 1e-12; // norm under which a row is zero

  explicit Canon(int n_) : n(n_), H(MatrixXd::Zero(n_, n_)), g(VectorXd::Zero(n_)) {}
  /** a^T x <= b*/
  void add(const VectorXd & a, double b)
  {
    if(b > BIG) return;
    double s = a.size() ? a.norm() : 0;
    if(s < eps)
    {
      if(b < -1e-9) infeasible = true;
      return;
    }
    VectorXd d = a / s;
    b /= s;
    for(auto & r : rows)
      if((r.first - d).cwiseAbs().maxCoeff() < 1e-8)
      {
        r.second = std::min(r.second, b);
        return;
      }
    rows.push_back({d, b});
  }
  void addRows(const MatrixXd & A, const VectorXd & l, const VectorXd & u)
  {
    for(Eigen::Index i = 0; i < A.rows(); ++i)
    {
      add(A.row(i).transpose(), u[i]);
      add(-A.row(i).transpose(), -l[i]);
    }
  }
  void addCost(const MatrixXd & A, const VectorXd & b)
  {
    H += A.transpose() * A;
    g -= A.transpose() * b;
  }
};

inline std::string show(const Canon & c)
{
  std::ostringstream s;
  s << "H\n" << c.H << "\ng " << c.g.transpose() << "\n";
  for(auto & r : c.rows) s << r.first.transpose() << " <= " << r.second << "\n";
  if(c.infeasible) s << "infeasible row\n";
  return s.str();
}

/** What the back-end received*/
inline Canon received(const backend::Problem & p, double eps = 1e-12)
{
  Canon c(p.n);
  c.eps = eps;
  if(!p.levels.empty())
  {
    // bounds, constraints, objective
    REQUIRE(p.levels.size() == 3, "LexLS: number of levels");
    c.addRows(p.levels[0].A, p.levels[0].l, p.levels[0].u);
    c.addRows(p.levels[1].A, p.levels[1].l, p.levels[1].u);
    const auto & o = p.levels[2];
    REQUIRE(o.l.size() == 0 || (o.l - o.u).cwiseAbs().maxCoeff() == 0, "LexLS: the objective is not made of equalities ", o.l.transpose(), " | ", o.u.transpose());
    c.addCost(o.A, o.l);
    return c;
  }
  if(p.hasObjective)
  {
    c.H = p.H;
    c.g = p.g;
  }
  c.addRows(p.E, p.e, p.e);
  for(Eigen::Index i = 0; i < p.I.rows(); ++i) c.add(p.I.row(i).transpose(), p.i[i]);
  if(p.xl.size())
    c.addRows(MatrixXd::Identity(p.n, p.n), p.xl, p.xu);
  return c;
}

/** What should be received, with world coordinates*/
inline Canon expected(const World & w, const std::vector<LTaskPtr> & tasks, double scalarization, bool autoDamping, const std::vector<bool> & used, int maxp = -1)
{
  Canon c(w.N);
  bool obj = false;
  if(maxp < 0)
    for(auto & t : tasks) maxp = std::max(maxp, t->p);
  for(auto & t : tasks)
  {
    MatrixXd J;
    VectorXd l, u;
    t->rows(w, J, l, u);
    if(t->p == 0) c.addRows(J, l, u);
    else
    {
      obj = true;
      VectorXd s = VectorXd::Constant(t->m, std::sqrt(t->weight) * std::pow(scalarization, maxp - t->p));
      if(t->hasAniso) s = s.cwiseProduct(t->aniso.cwiseSqrt());
      c.addCost(s.asDiagonal() * J, s.asDiagonal() * l);
    }
  }
  if(!obj && autoDamping)
    for(int i = 0; i < w.N; ++i)
      if(used[static_cast<size_t>(i)]) c.H(i, i) = 1;
  return c;
}

/** Coordinates of the world used by tasks*/
inline std::vector<bool> usedCoordinates(const World & w, const std::vector<LTaskPtr> & tasks)
{
  std::vector<bool> used(static_cast<size_t>(w.N), false);
  for(auto & t : tasks)
    for(auto & q : t->x)
    {
      int s = w.start(q, t->kind == LTask::Linear ? q.d : q.d + 1);
      for(int i = 0; i < q.size; ++i) used[static_cast<size_t>(s + i)] = true;
    }
  return used;
}

/** e, in world coordinates, is g for the mapping solver index -> world coordinate*/
inline void compare(const Canon & e, const Canon & g, const std::vector<int> & map, double tol = 1e-6)
{
  REQUIRE(static_cast<int>(map.size()) == g.n, "number of variables");
  Canon c(g.n);
  for(int i = 0; i < g.n; ++i)
  {
    c.g[i] = e.g[map[static_cast<size_t>(i)]];
    for(int j = 0; j < g.n; ++j) c.H(i, j) = e.H(map[static_cast<size_t>(i)], map[static_cast<size_t>(j)]);
  }
  c.infeasible = e.infeasible;
  for(auto & r : e.rows)
  {
    VectorXd a(g.n);
    for(int i = 0; i < g.n; ++i) a[i] = r.first[map[static_cast<size_t>(i)]];
    c.rows.push_back({a, r.second});
  }
  REQUIRE(c.infeasible == g.infeasible, "rows 0 <= b");
  if(g.n == 0) return;
  double scale = 1 + std::max(c.H.cwiseAbs().maxCoeff(), c.g.cwiseAbs().maxCoeff());
  REQUIRE(g.H.allFinite() && g.g.allFinite(), "non finite cost");
  REQUIRE((c.H - g.H).cwiseAbs().maxCoeff() < tol * scale, "wrong matrix of the cost, received\n", g.H, "\nexpected\n", c.H);
  REQUIRE((c.g - g.g).cwiseAbs().maxCoeff() < tol * scale, "wrong vector of the cost, received\n", g.g.transpose(), "\nexpected\n", c.g.transpose());
  auto included = [&](const Canon & a, const Canon & b, const char * what) {
    for(auto & r : a.rows)
    {
      bool found = false;
      for(auto & s : b.rows)
        if((r.first - s.first).cwiseAbs().maxCoeff() < 1e-7 && std::abs(r.second - s.second) < 1e-7 * (1 + std::abs(r.second)))
        {
          found = true;
          break;
        }
      REQUIRE(found, what, r.first.transpose(), " <= ", r.second, "\nreceived:\n", show(g), "expected:\n", show(c));
    }
  };
  included(c, g, "missing constraint: ");
  included(g, c, "unexpected constraint: ");
}

/** Comparison of the problems, with the costs defined up to a positive factor.*/
inline void compareScaled(Canon e, const Canon & r, const std::vector<int> & map)
{
  double se = e.n ? std::max(e.H.cwiseAbs().maxCoeff(), e.g.cwiseAbs().maxCoeff()) : 0;
  double sr = r.n ? std::max(r.H.cwiseAbs().maxCoeff(), r.g.cwiseAbs().maxCoeff()) : 0;
  REQUIRE(std::isfinite(sr), "non-finite cost");
  if(se > 1e-12 && sr > 1e-12)
  {
    e.H *= sr / se;
    e.g *= sr / se;
  }
  double s = std::max(sr, 1e-5);
  Canon r2 = r;
  // so that the comparison is relative
  e.H /= s;
  e.g /= s;
  r2.H /= s;
  r2.g /= s;
  compare(e, r2, map);
}

/** A scheme with one of the solvers*/
struct Scheme
{
  bool cholesky = false;
  std::unique_ptr<scheme::WeightedLeastSquares> s;
  std::string name;
  double scalarization = 1000;
  bool autoDamping = false;
};

inline Scheme genScheme(Gen & g, bool options = true, bool smallScalarization = false)
{
  Scheme r;
  scheme::WeightedLeastSquaresOptions o;
  if(smallScalarization || (options && g.coin(1, 3)))
  {
    r.scalarization = g.pick(smallScalarization ? std::vector<double>{10, 1, 3} : std::vector<double>{10, 1, 100});
    o.scalarizationWeight(r.scalarization);
  }
  if(options && g.coin(1, 3))
  {
    r.autoDamping = true;
    o.autoDamping(true);
  }
  int k = g.range(0, 6);
  switch(k)
  {
    case 0:
      r.s = std::make_unique<scheme::WeightedLeastSquares>(solver::LSSOLLSSolverOptions{}, o);
      r.name = "LSSOL";
      break;
    case 1:
      r.s = std::make_unique<scheme::WeightedLeastSquares>(solver::QLDLSSolverOptions{}, o);
      r.name = "QLD";
      break;
    case 2:
      r.s = std::make_unique<scheme::WeightedLeastSquares>(solver::QuadprogLSSolverOptions{}, o);
      r.name = "Quadprog";
      break;
    case 3:
      r.s = std::make_unique<scheme::WeightedLeastSquares>(solver::LexLSLSSolverOptions{}, o);
      r.name = "LexLS";
      break;
    case 4:
      r.s = std::make_unique<scheme::WeightedLeastSquares>(solver::QLDLSSolverOptions{}.cholesky(true), o);
      r.name = "QLD with Cholesky";
      break;
    case 5:
      r.s = std::make_unique<scheme::WeightedLeastSquares>(solver::QuadprogLSSolverOptions{}.cholesky(true), o);
      r.name = "Quadprog with Cholesky";
      break;
    case 6:
      r.s = std::make_unique<scheme::WeightedLeastSquares>(solver::LexLSLSSolverOptions{}.warmStart(true), o);
      r.name = "LexLS with warm start";
      break;
  }
  if(options && g.coin(1, 4)) r.s->big_number(1e10);
  r.cholesky = k == 4 || k == 5;
  g.log(r.name, ", scalarization ", r.scalarization, r.autoDamping ? ", auto-damping" : "");
  return r;
}

/** The cholesky option of a solver asks for a positive definite cost, or for less objectives than variables (a damping is then added).*/
inline bool supported(const Scheme & s, const Canon & e, const std::vector<LTaskPtr> & tasks, const std::vector<bool> & used)
{
  if(!s.cholesky) return true;
  int nObj = 0;
  for(auto & t : tasks)
    if(t->p > 0) nObj += t->m;
  std::vector<int> idx;
  for(int i = 0; i < e.n; ++i)
    if(used[static_cast<size_t>(i)]) idx.push_back(i);
  int n = static_cast<int>(idx.size());
  if(nObj < n) return true;
  MatrixXd H(n, n);
  for(int i = 0; i < n; ++i)
    for(int j = 0; j < n; ++j) H(i, j) = e.H(idx[static_cast<size_t>(i)], idx[static_cast<size_t>(j)]);
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
  return es.eigenvalues()[0] > 1e-6 * es.eigenvalues()[n - 1];
}

/** Solves pb, and returns the mapping from the solver indices to the coordinates of the world, after having checked that
 * it is consistent and that the other coordinates did not change.*/
template<typename S>
inline std::vector<int> solveAndMap(Gen & g, World & w, LinearizedControlProblem & pb, S & scheme, const std::vector<bool> & used)
{
  // kept values
  VectorXd before = w.all();
  backend::reset();
  bool success = !g.coin(1, 8);
  backend::state().success = success;
  backend::state().solve = [](const backend::Problem & p) {
    VectorXd x(p.n);
    for(int i = 0; i < p.n; ++i) x[i] = 1000 + i;
    return x;
  };
  bool res = scheme.solve(pb);
  REQUIRE(backend::state().misuse.empty(), "misuse of the solver: ", backend::state().misuse);
  REQUIRE(backend::state().nbSolve == 1, "number of calls to the solver: ", backend::state().nbSolve);
  REQUIRE(res == success, "solve returned ", res, " although the solver returned ", success);
  VectorXd after = w.all();
  std::vector<int> map(static_cast<size_t>(backend::state().last.n), -1);
  for(int i = 0; i < w.N; ++i)
  {
    if(!used[static_cast<size_t>(i)])
    {
      REQUIRE(after[i] == before[i], "coordinate ", i, " changed although it is not in the problem");
      continue;
    }
    double k = after[i] - 1000;
    REQUIRE(k >= 0 && k == std::floor(k) && k < static_cast<double>(map.size()), "coordinate ", i, " did not receive a value of the solution: ", after[i]);
    REQUIRE(map[static_cast<size_t>(k)] == -1, "the value ", k, " of the solution is given to coordinates ", map[static_cast<size_t>(k)], " and ", i);
    map[static_cast<size_t>(k)] = i;
  }
  for(size_t k = 0; k < map.size(); ++k) REQUIRE(map[k] != -1, "the solver has a variable (", k, ") which is not in the problem");
  return map;
}
} // namespace ls
