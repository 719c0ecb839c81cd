#include "direct.h"
#include <tvm/scheme/HierarchicalLeastSquares.h>
#include <tvm/solver/LexLSHierarchicalLeastSquareSolver.h>
#include <tvm/solver/defaultLeastSquareSolver.h>

using namespace ls;

const pbt::Info pbt::info = {
    "P26",
    "options: a scheme with any subset of the options of one of the six solvers (LSSOL, QLD, Quadprog, LexLS, hierarchical LexLS, default) set to any values, given directly or by a factory, solving 1 to 4 times a problem of 1 to 4 tasks, with changes of data or a task added in-between, what the "
    "back-end uses being compared with what was set. Non-trivial: at least one option set and one left. infinity: two schemes with different numbers for infinity, each with its problem, solved in any order with tasks added in-between. Non-trivial: a one-sided task added after a resolution by the other scheme. "
    "Distinctness: the sequence of choices."};

namespace
{
using Opt = std::map<std::string, double>;
struct Cout
{
  std::ostringstream s;
  std::streambuf * b = std::cout.rdbuf(s.rdbuf());
  ~Cout() { std::cout.rdbuf(b); }
};

/** What is expected of a solver*/
struct Expected
{
  Opt opt;
  std::string file;
  bool file_ = false;
  double big = constant::big_number; // for the solver
  bool verbose = false, warm = false, cholesky = false;
  double damping = 0, choleskyDamping = 0;
  int set = 0, left = 0;
};

#define OPT_VAR(o, name, var, v)  \
  if(g.coin(1, 3))                \
  {                               \
    var = v;                      \
    o.name(var);                  \
    ++e.set;                      \
    g.log(#name, " = ", var);     \
  }                               \
  else                            \
    ++e.left;
#define OPT(o, name, type, v)              \
  if(g.coin(1, 3))                         \
  {                                        \
    type k = v;                            \
    o.name(k);                             \
    e.opt[#name] = static_cast<double>(k); \
    ++e.set;                               \
    g.log(#name, " = ", k);                \
  }                                        \
  else                                     \
    ++e.left;

double tolerance(Gen & g) { return std::pow(10., -g.range(3, 12)) * static_cast<double>(g.range(1, 9)); }
double bigNumber(Gen & g) { return g.pick(std::vector<double>{1e11, 1e15, 1e20, 1e30}); }

template<typename O>
void lexls(Gen & g, O & o, Expected & e)
{
  e.opt = {{"max_number_of_factorizations", 200}, {"tol_linear_dependence", 1e-12}, {"tol_wrong_sign_lambda", 1e-8}, {"tol_correct_sign_lambda", 2e-12}, {"tol_feasibility", 1e-13},
           {"regularization_type", 0}, {"max_number_of_CG_iterations", 10}, {"variable_regularization_factor", 0}, {"cycling_handling_enabled", 1}, {"cycling_max_counter", 51},
           {"cycling_relax_step", 3e-8}, {"modify_x_guess_enabled", 0}, {"modify_type_active_enabled", 0}, {"modify_type_inactive_enabled", 0}, {"set_min_init_ctr_violation", 1},
           {"use_phase1_v0", 0}, {"log_working_set_enabled", 0}, {"deactivate_first_wrong_sign", 0}};
  OPT(o, max_number_of_factorizations, LexLS::Index, static_cast<LexLS::Index>(g.range(1, 1000)))
  OPT(o, tol_linear_dependence, double, tolerance(g))
  OPT(o, tol_wrong_sign_lambda, double, tolerance(g))
  OPT(o, tol_correct_sign_lambda, double, tolerance(g))
  OPT(o, tol_feasibility, double, tolerance(g))
  OPT(o, regularization_type, LexLS::RegularizationType, g.coin() ? LexLS::REGULARIZATION_TIKHONOV : LexLS::REGULARIZATION_NONE)
  OPT(o, max_number_of_CG_iterations, LexLS::Index, static_cast<LexLS::Index>(g.range(1, 100)))
  OPT(o, variable_regularization_factor, double, tolerance(g))
  OPT(o, cycling_handling_enabled, bool, g.coin())
  OPT(o, cycling_max_counter, LexLS::Index, static_cast<LexLS::Index>(g.range(1, 100)))
  OPT(o, cycling_relax_step, double, tolerance(g))
  OPT_VAR(o, output_file_name, e.file, g.coin() ? std::string("out") : std::string("file"))
  OPT(o, modify_x_guess_enabled, bool, g.coin())
  OPT(o, modify_type_active_enabled, bool, g.coin())
  OPT(o, modify_type_inactive_enabled, bool, g.coin())
  OPT(o, set_min_init_ctr_violation, bool, g.coin())
  OPT(o, use_phase1_v0, bool, g.coin())
  OPT(o, log_working_set_enabled, bool, g.coin())
  OPT(o, deactivate_first_wrong_sign, bool, g.coin())
  OPT_VAR(o, warmStart, e.warm, g.coin())
  OPT_VAR(o, big_number, e.big, bigNumber(g))
  OPT_VAR(o, verbose, e.verbose, g.coin())
}

using S = scheme::WeightedLeastSquares;
using H = scheme::HierarchicalLeastSquares;
template<typename Sch, typename Opts, typename SchO>
std::unique_ptr<Sch> make(Gen & g, const Opts & o, const SchO & so)
{
  if(g.coin()) return std::make_unique<Sch>(o, so);
  typename Opts::Factory f(o);
  if(g.coin()) return std::make_unique<Sch>(f, so);
  auto c = f.clone();
  return std::make_unique<Sch>(static_cast<typename Opts::Factory &>(*c), so);
}

/** Sides of rows that are infinite*/
void bigs(const VectorXd & v, std::vector<double> & res)
{
  for(double x : v)
    if(std::abs(x) > BIG) res.push_back(std::abs(x));
}
} // namespace

PROPERTY(options, 25000, 800000)
{
  World w;
  w.generate(g, 3, 3, true, 3, 1);
  w.setAll(g);
  Expected e;
  const int kind = g.range(0, 5);
  const char * names[6] = {"LSSOL", "QLD", "Quadprog", "LexLS", "default", "hierarchical LexLS"};
  g.log(names[kind]);
  std::unique_ptr<S> s;
  std::unique_ptr<H> h;
  scheme::WeightedLeastSquaresOptions so;
  scheme::HierarchicalLeastSquaresOptions sh;
  double scalarization = 1000;
  bool damping = false;
  if(g.coin(1, 3))
  {
    damping = g.coin();
    so.autoDamping(damping);
    sh.autoDamping(damping);
  }
  if(g.coin(1, 3))
  {
    scalarization = g.pick(std::vector<double>{10, 1, 100});
    so.scalarizationWeight(scalarization);
  }
  const Opt lssol = {{"crashTol", .01}, {"feasibilityMaxIter", 4 * 50}, {"feasibilityTol", 1e-6}, {"infiniteBnd", 1e20}, {"infiniteStep", 2e20}, {"optimalityMaxIter", 4 * 60}, {"persistence", 1}, {"printLevel", 0}, {"rankTol", 1e-7}, {"warm", 1}};
  switch(kind)
  {
    case 0:
    {
      solver::LSSOLLSSolverOptions o;
      e.opt = lssol;
      OPT(o, crashTol, double, tolerance(g))
      OPT(o, feasibilityMaxIter, int, g.range(1, 1000))
      OPT(o, feasibilityTol, double, tolerance(g))
      OPT(o, infiniteBnd, double, bigNumber(g))
      OPT(o, infiniteStep, double, bigNumber(g))
      OPT(o, optimalityMaxIter, int, g.range(1, 1000))
      OPT(o, persistence, bool, g.coin())
      OPT(o, printLevel, int, g.range(0, 20))
      OPT(o, rankTol, double, tolerance(g))
      OPT(o, warm, bool, g.coin())
      OPT_VAR(o, big_number, e.big, bigNumber(g))
      OPT_VAR(o, verbose, e.verbose, g.coin())
      s = make<S>(g, o, so);
      break;
    }
    case 1:
    {
      solver::QLDLSSolverOptions o;
      e.opt["eps"] = 1e-6;
      e.choleskyDamping = 1e-8;
      OPT_VAR(o, cholesky, e.cholesky, g.coin())
      OPT_VAR(o, choleskyDamping, e.choleskyDamping, g.pick(std::vector<double>{.5, .1, .25}))
      OPT(o, eps, double, tolerance(g))
      OPT_VAR(o, big_number, e.big, bigNumber(g))
      OPT_VAR(o, verbose, e.verbose, g.coin())
      s = make<S>(g, o, so);
      break;
    }
    case 2:
    {
      solver::QuadprogLSSolverOptions o;
      e.choleskyDamping = 1e-6;
      e.damping = 1e-12;
      OPT_VAR(o, cholesky, e.cholesky, g.coin())
      OPT_VAR(o, choleskyDamping, e.choleskyDamping, g.pick(std::vector<double>{.5, .1, .25}))
      OPT_VAR(o, damping, e.damping, g.pick(std::vector<double>{.4, .2, .3}))
      OPT_VAR(o, big_number, e.big, bigNumber(g))
      OPT_VAR(o, verbose, e.verbose, g.coin())
      s = make<S>(g, o, so);
      break;
    }
    case 3:
    {
      solver::LexLSLSSolverOptions o;
      lexls(g, o, e);
      s = make<S>(g, o, so);
      break;
    }
    case 4:
    {
      solver::DefaultLSSolverOptions o;
      e.opt = lssol;
      OPT_VAR(o, big_number, e.big, bigNumber(g))
      OPT_VAR(o, verbose, e.verbose, g.coin())
      s = make<S>(g, o, so);
      break;
    }
    case 5:
    {
      solver::LexLSHLSSolverOptions o;
      lexls(g, o, e);
      bool f = false;
      OPT_VAR(o, feasibleFirstLevel, f, g.coin())
      h = make<H>(g, o, sh);
      break;
    }
  }
  double big = constant::big_number;
  if(g.coin())
  {
    big = g.pick(std::vector<double>{1e10, 1e12, 1e25});
    if(s) s->big_number(big);
    else
      h->big_number(big);
    g.log("number for infinity: ", big);
  }
  REQUIRE((s ? s->big_number() : h->big_number()) == big, "number for infinity of the scheme");

  LinearizedControlProblem pb;
  std::vector<LTaskPtr> tasks;
  GenOptions o;
  o.infinite = false;
  auto add = [&] {
    auto t = genTask(g, w, o);
    if(h)
    {
      t->hasWeight = t->hasAniso = false;
      t->weight = 1;
    }
    g.log(t->desc());
    t->tr = pb.add(*t->task, t->requirements());
    tasks.push_back(t);
  };
  int n = g.range(1, 3);
  for(int i = 0; i < n; ++i) add();
  int maxp = 0;
  for(auto & t : tasks) maxp = std::max(maxp, t->p);
  const int k = g.range(1, 4);
  backend::Problem last;
  VectorXd lastX;
  bool same = false; // no change since the last resolution
  for(int i = 0; i < k; ++i)
  {
    auto used = usedCoordinates(w, tasks);
    Canon c(w.N);
    bool obj = false;
    int nObj = 0;
    for(auto & t : tasks) nObj += t->p > 0 ? t->m : 0;
    obj = nObj > 0;
    std::vector<int> map;
    std::string out;
    if(s)
    {
      c = expected(w, tasks, scalarization, damping, used, maxp);
      Scheme sch;
      sch.cholesky = e.cholesky;
      if(!supported(sch, c, tasks, used)) throw pbt::Discard();
      for(bool b : used) if(b && e.cholesky && e.choleskyDamping < 1e-3 && nObj < static_cast<int>(std::count(used.begin(), used.end(), true))) throw pbt::Discard();
    }
    {
      Cout co;
      map = s ? solveAndMap(g, w, pb, *s, used) : solveAndMap(g, w, pb, *h, used);
      out = co.s.str();
    }
    const backend::Problem p = backend::state().last;
    if(e.verbose) REQUIRE(!out.empty(), "nothing is printed with the verbose option");
    else if(backend::state().success && maxp <= 1) // there is a warning for the levels emulated by scalarization
      REQUIRE(out.empty(), "printed without the verbose option: ", out);
    // options
    for(auto & op : e.opt)
    {
      auto it = p.opt.find(op.first);
      REQUIRE(it != p.opt.end(), op.first, " is not known by the solver");
      REQUIRE(it->second == op.second, op.first, " is ", it->second, " for the solver, instead of ", op.second);
    }
    REQUIRE(p.file == e.file, "output_file_name is \"", p.file, "\" instead of \"", e.file, "\"");
    if(p.opt.count("cholesky")) REQUIRE((p.opt.at("cholesky") == 1) == (e.cholesky && (obj || !damping)), "cholesky is ", p.opt.at("cholesky"));
    // guess
    if(e.warm)
    {
      REQUIRE(p.x0.size() == p.n, "size of the guess");
      if(same)
      {
        REQUIRE(p.x0 == lastX, "the guess is not the last solution");
        std::vector<std::array<int, 3>> act;
        for(auto & a : last.finalActive)
          if((a[2] == LexLS::CTR_ACTIVE_LB || a[2] == LexLS::CTR_ACTIVE_UB)) act.push_back(a);
        REQUIRE(p.active.size() == act.size(), "size of the guess of the active set: ", p.active.size(), " instead of ", act.size());
        for(auto & a : act) REQUIRE(std::count(p.active.begin(), p.active.end(), a) == 1, "constraint ", a[1], " of level ", a[0], " is missing in the guess of the active set");
        g.tag("warm start");
      }
    }
    else
      REQUIRE(p.x0.size() == 0 && p.active.empty(), "a guess is given without the warm start option");
    // infinity
    std::vector<double> general, bounds;
    if(kind == 0 || kind == 4)
    {
      bigs(p.i, general);
      bigs(p.xl, bounds);
      bigs(p.xu, bounds);
    }
    else if(kind == 3)
    {
      bigs(p.levels[1].l, general);
      bigs(p.levels[1].u, general);
      bigs(p.levels[0].l, bounds);
      bigs(p.levels[0].u, bounds);
    }
    else if(kind == 5)
    {
      for(auto & l : p.levels)
        for(int r = 0; r < l.A.rows(); ++r)
        {
          bool single = (l.A.row(r).array() != 0).count() <= 1;
          bigs(l.l.segment(r, 1), single ? bounds : general);
          bigs(l.u.segment(r, 1), single ? bounds : general);
        }
    }
    else
    {
      bigs(p.xl, bounds);
      bigs(p.xu, bounds);
      bigs(p.i, bounds);
      if(kind == 2) bounds.erase(std::remove(bounds.begin(), bounds.end(), 1e300), bounds.end()); // not given
    }
    for(double b : general) REQUIRE(b == (h ? std::min(big, e.big) : big), "infinity is ", b, " in a constraint, ", big, " for the scheme and ", e.big, " for the solver");
    bool scaled = false; // the infinity is multiplied by the inverse of the jacobian
    for(auto & t : tasks) scaled = scaled || (t->boundLike() && (t->shape == LTask::Diagonal || t->shape == LTask::Multiple));
    for(double b : bounds) REQUIRE(scaled || b == big || b == e.big, "infinity is ", b, " for a bound, ", big, " for the scheme and ", e.big, " for the solver");
    if(!general.empty()) g.tag("infinity in a constraint");
    // cost
    if(s)
    {
      double d = e.cholesky ? (nObj < p.n ? e.choleskyDamping * e.choleskyDamping : 0) : e.damping;
      if(obj || !damping)
        for(int j = 0; j < w.N; ++j)
          if(used[static_cast<size_t>(j)]) c.H(j, j) += d;
      compare(c, received(p), map);
    }
    last = p;
    lastX = VectorXd::LinSpaced(p.n, 1000, 1000 + p.n - 1);
    w.setAll(g);
    same = true;
    switch(g.range(0, 3))
    {
      case 0:
        g.log("new data");
        for(auto & t : tasks) t->refill(g);
        break;
      case 1:
        if(h) break; // additions are not supported
        g.log("new task");
        o.maxPriority = std::max(1, maxp);
        add();
        if(damping) maxp = std::max(maxp, tasks.back()->p); // the problem is rebuilt, otherwise the scalarization stays relative to the first levels
        same = false;
        break;
      default:
        g.log("new values");
    }
  }
  if(e.set && e.left) g.nontrivial();
}

PROPERTY(infinity, 6000, 100000)
{
  World w;
  w.generate(g, 3, 3, true, 3, 1);
  w.setAll(g);
  const double big[2] = {1e10, 1e13};
  std::unique_ptr<S> s[2];
  LinearizedControlProblem pb[2];
  std::vector<LTaskPtr> tasks[2];
  bool lex = g.coin(), added[2] = {false, false}, solved[2] = {false, false};
  int last = -1;
  GenOptions o;
  o.infinite = false;
  o.maxPriority = 1;
  auto add = [&](int i) {
    auto t = genTask(g, w, o);
    g.log("problem ", i, ": ", t->desc());
    t->tr = pb[i].add(*t->task, t->requirements());
    tasks[i].push_back(t);
    added[i] = added[i] || (solved[i] && last != i && t->p == 0 && !t->boundLike() && (t->type == Type::GREATER_THAN || t->type == Type::LOWER_THAN));
  };
  for(int i = 0; i < 2; ++i)
  {
    if(lex) s[i] = std::make_unique<S>(solver::LexLSLSSolverOptions{});
    else
      s[i] = std::make_unique<S>(solver::LSSOLLSSolverOptions{});
    s[i]->big_number(big[i]);
    int n = g.range(1, 3);
    for(int j = 0; j < n; ++j) add(i);
  }
  int k = g.range(2, 8);
  for(int j = 0; j < k; ++j)
  {
    int i = g.range(0, 1);
    if(g.coin(1, 3))
    {
      add(i);
      continue;
    }
    g.log("resolution ", i);
    {
      Cout co;
      solveAndMap(g, w, pb[i], *s[i], usedCoordinates(w, tasks[i]));
    }
    const auto & p = backend::state().last;
    std::vector<double> b;
    if(lex)
    {
      bigs(p.levels[1].l, b);
      bigs(p.levels[1].u, b);
    }
    else
      bigs(p.i, b);
    for(double v : b) REQUIRE(v == big[i], "infinity is ", v, " instead of ", big[i]);
    if(added[i]) g.nontrivial();
    solved[i] = true;
    last = i;
    w.setAll(g);
  }
}
