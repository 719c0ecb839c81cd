#include "world.h"
#include <iostream>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/utils/checkFunction.h>

using namespace vars;
using tvm::utils::CheckOptions;

const pbt::Info pbt::info = {
    "P22",
    "configs: smooth functions (quadratic plus sines) on 1 to 3 variables or subvariables, correct or with one output made wrong by a known quantity (on one entry, everywhere or on a half-space "
    "only; also nan), checked on 1 to 4 given configurations; step and precision are drawn such that the a priori bound on the finite difference error is below a third of the tolerance, and the "
    "wrong quantity above twice the tolerance. sampled: the same with random configurations (functions close enough to linear ones so that the bounds hold everywhere), partly given "
    "configurations, and linear functions. manifold: velocity check on non-Euclidean variables. refused: missing outputs and non-Euclidean variables. Non-trivial: all (the cases for which the "
    "bounds do not conclude are discarded). Distinctness: the sequence of choices."};

namespace
{
enum class Wrong
{
  None,
  Value,
  Jacobian,
  Velocity,
  NormalAcc
};
const char * name(Wrong w)
{
  switch(w)
  {
    case Wrong::None: return "nothing wrong";
    case Wrong::Value: return "wrong value";
    case Wrong::Jacobian: return "wrong jacobian";
    case Wrong::Velocity: return "wrong velocity";
    default: return "wrong normal acceleration";
  }
}

/** f_i(X) = b_i + A_i X + 1/2 X^T Q_i X + c_i sin(w_i.X)*/
class Smooth : public tvm::function::abstract::Function
{
public:
  SET_UPDATES(Smooth, Value, Jacobian, Velocity, NormalAcceleration)
  MatrixXd A, W;
  std::vector<MatrixXd> Q;
  VectorXd b, c;
  // what is wrong, on which row and column, and where
  Wrong wrong = Wrong::None;
  int row = 0, col = 0;
  double delta = 0;
  int where = -1; // index in X, -1 for everywhere
  double threshold = 0;

  Smooth(const std::vector<VariablePtr> & x, int m) : Function(m)
  {
    registerUpdates(Update::Value, &Smooth::updateValue, Update::Jacobian, &Smooth::updateJacobian, Update::Velocity, &Smooth::updateVelocity, Update::NormalAcceleration,
                    &Smooth::updateNormalAcceleration);
    addOutputDependency<Smooth>(Output::Value, Update::Value);
    addOutputDependency<Smooth>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<Smooth>(Output::Velocity, Update::Velocity);
    addOutputDependency<Smooth>(Output::NormalAcceleration, Update::NormalAcceleration);
    for(auto & v : x) addVariable(v, false);
    value_.setConstant(NAN);
    velocity_.setConstant(NAN);
    normalAcceleration_.setConstant(NAN);
  }
  int n() const { return static_cast<int>(A.cols()); }
  VectorXd X() const { return variables().value(); }
  VectorXd V() const
  {
    VectorXd v(variables().totalSize());
    int s = 0;
    for(auto & x : variables())
    {
      v.segment(s, x->size()) = dot(x)->value();
      s += x->size();
    }
    return v;
  }
  VectorXd val(const VectorXd & x) const
  {
    VectorXd v = b + A * x;
    for(int i = 0; i < v.size(); ++i) v[i] += .5 * x.dot(Q[static_cast<size_t>(i)] * x) + c[i] * std::sin(W.row(i).dot(x));
    return v;
  }
  MatrixXd jac(const VectorXd & x) const
  {
    MatrixXd J = A;
    for(int i = 0; i < J.rows(); ++i) J.row(i) += (Q[static_cast<size_t>(i)] * x).transpose() + c[i] * std::cos(W.row(i).dot(x)) * W.row(i);
    return J;
  }
  VectorXd nacc(const VectorXd & x, const VectorXd & v) const
  {
    VectorXd a(A.rows());
    for(int i = 0; i < a.size(); ++i)
    {
      double wv = W.row(i).dot(v);
      a[i] = v.dot(Q[static_cast<size_t>(i)] * v) - c[i] * std::sin(W.row(i).dot(x)) * wv * wv;
    }
    return a;
  }
  // bounds, for the whole output, on the second and third derivatives
  double m2() const
  {
    VectorXd m(A.rows());
    for(int i = 0; i < m.size(); ++i) m[i] = Q[static_cast<size_t>(i)].norm() + std::abs(c[i]) * W.row(i).squaredNorm();
    return m.norm();
  }
  double m3() const
  {
    VectorXd m(A.rows());
    for(int i = 0; i < m.size(); ++i) m[i] = std::abs(c[i]) * std::pow(W.row(i).norm(), 3);
    return m.norm();
  }
  /** Bound of the magnitude of the terms of the value, of J v*/
  double mag(double x) const
  {
    VectorXd m(A.rows());
    for(int i = 0; i < m.size(); ++i) m[i] = std::abs(b[i]) + A.row(i).norm() * x + .5 * Q[static_cast<size_t>(i)].norm() * x * x + std::abs(c[i]) * (1 + W.row(i).norm() * x);
    return m.norm();
  }
  double jmag(double x) const { return A.norm() + c.cwiseProduct(W.rowwise().norm()).norm() * (1 + W.norm() * x) + m2() * x; }

  bool active(const VectorXd & x) const { return wrong != Wrong::None && (where < 0 || x[where] > threshold); }
  void updateValue()
  {
    value_ = val(X());
    if(wrong == Wrong::Value && active(X())) value_[row] += delta * X()[col];
  }
  void updateJacobian()
  {
    MatrixXd J = jac(X());
    if(wrong == Wrong::Jacobian && active(X())) J(row, col) += delta;
    splitJacobian(J, variables());
  }
  void updateVelocity()
  {
    velocity_ = jac(X()) * V();
    if(wrong == Wrong::Velocity && active(X())) velocity_[row] += delta;
  }
  void updateNormalAcceleration()
  {
    normalAcceleration_ = nacc(X(), V());
    if(wrong == Wrong::NormalAcc && active(X())) normalAcceleration_[row] += delta;
  }
};
using SmoothPtr = std::shared_ptr<Smooth>;

SmoothPtr genSmooth(Gen & g, World & w, bool tame, bool linear)
{
  w.generate(g, 2, 3, true, 2, 1);
  std::vector<VariablePtr> x;
  int n = 0;
  for(auto & q : w.disjoint(g, g.range(1, 3), 0))
    if(q.d == 0 && q.size > 0)
    {
      x.push_back(q.p);
      n += q.size;
    }
  if(x.empty() || n == 0) throw pbt::Discard();
  int m = tame ? n + g.range(0, 1) : g.range(1, 4);
  auto f = std::make_shared<Smooth>(x, m);
  // variables() might have reordered nothing: the order is the one of the insertions
  f->A = g.bulk(m, n, tame ? .3 : 3);
  if(tame)
    for(int i = 0; i < n; ++i) f->A(i, i) += 2 + g.positive(3);
  f->b = g.bulkVec(m);
  double s = linear ? 0. : tame ? .05 / (n * n) : 1.;
  for(int i = 0; i < m; ++i)
  {
    MatrixXd S = g.bulk(n, n, s);
    f->Q.push_back(S + S.transpose());
  }
  f->c = g.bulkVec(m, s);
  f->W = g.bulk(m, n, tame ? 1 : 2);
  if(!linear && !tame && g.coin(1, 4)) f->c.setZero();
  g.log(linear ? "linear" : tame ? "almost linear" : "smooth", " function of size ", m, " on ", x.size(), " variables of total size ", n);
  return f;
}

/** Errors of the finite differences, as ratios (accepted if precision is more) and as minimal wrong quantities, for a precision*/
struct Bounds
{
  double j = 0, v = 0, a = 0; // precisions for which the correct function is accepted
  double errJ = 0, errA = 0; // bounds of the errors
  double maxJ = 0, maxV = 0, maxA = 0; // bounds of the quantities
  void operator|=(const Bounds & o)
  {
    j = std::max(j, o.j);
    v = std::max(v, o.v);
    a = std::max(a, o.a);
    errJ = std::max(errJ, o.errJ);
    errA = std::max(errA, o.errA);
    maxJ = std::max(maxJ, o.maxJ);
    maxV = std::max(maxV, o.maxV);
    maxA = std::max(maxA, o.maxA);
  }
};

constexpr double eps = 2.3e-16;

/** lowJ, lowV, lowA are lower bounds of the norm of a column of the jacobian, of the velocity and of the acceleration*/
Bounds bounds(const Smooth & f, double h, double xm, double vm, double am, double lowJ, double lowV, double lowA)
{
  Bounds r;
  double n = f.n();
  double jm = f.jmag(xm);
  r.errJ = .5 * h * f.m2() + 8 * (n + 4) * eps * f.mag(xm) / h + 4 * eps * n * f.m2() / h * xm * h;
  double x1 = xm + vm * h + am * h * h, v1 = vm + am * h;
  r.errA = .5 * h * (3 * f.m2() * v1 * am + f.m3() * v1 * v1 * v1) + 8 * (n + 4) * eps * f.jmag(x1) * v1 / h + 8 * eps * f.m2() * (1 + xm) * v1 / h;
  r.maxJ = jm;
  r.maxV = jm * vm;
  r.maxA = jm * am + f.m2() * vm * vm;
  auto ratio = [](double e, double low) { return e == 0 ? 0 : low <= e ? 1e9 : e / (low - e); };
  r.j = ratio(r.errJ, lowJ);
  r.v = ratio(8 * (n + 4) * eps * jm * vm, lowV);
  r.a = ratio(r.errA, lowA);
  return r;
}

struct Quiet
{
  std::stringstream s;
  std::streambuf * old;
  Quiet() : old(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};

/** which: 0 jacobian, 1 velocity, 2 normal acceleration, 3 all*/
bool runCheck(int which, FunctionPtr f, const CheckOptions & opt)
{
  Quiet q;
  switch(which)
  {
    case 0: return tvm::utils::checkJacobian(f, opt);
    case 1: return tvm::utils::checkVelocity(f, opt);
    case 2: return tvm::utils::checkNormalAcceleration(f, opt);
    default: return tvm::utils::checkFunction(f, opt);
  }
}
const char * checkName(int w) { return w == 0 ? "checkJacobian" : w == 1 ? "checkVelocity" : w == 2 ? "checkNormalAcceleration" : "checkFunction"; }

/** 1: accepted, -1: rejected, 0: unspecified*/
int verdict(int which, Wrong w)
{
  if(w == Wrong::None) return 1;
  switch(which)
  {
    case 0: return (w == Wrong::Value || w == Wrong::Jacobian) ? -1 : 1;
    case 1: return w == Wrong::Velocity ? -1 : w == Wrong::Jacobian ? 0 : 1;
    case 2: return w == Wrong::NormalAcc ? -1 : w == Wrong::Value ? 1 : 0;
    default: return -1;
  }
}

void genWrong(Gen & g, Smooth & f, const Bounds & B, double prec, double xm)
{
  f.wrong = g.pick(std::vector<Wrong>{Wrong::None, Wrong::Jacobian, Wrong::Velocity, Wrong::NormalAcc, Wrong::Value});
  f.row = g.range(0, f.size() - 1);
  f.col = g.range(0, f.n() - 1);
  double minimal = 0;
  switch(f.wrong)
  {
    // the wrong column might be the one of largest norm, hence the 1-prec
    case Wrong::Jacobian:
    case Wrong::Value: minimal = (prec * (B.maxJ + B.errJ) + B.errJ) / (1 - prec); break;
    case Wrong::Velocity: minimal = prec * B.maxV + 1e-12 * (1 + B.maxV); break;
    case Wrong::NormalAcc: minimal = prec * (B.maxA + B.errA) + B.errA; break;
    default: break;
  }
  if(f.wrong == Wrong::Value) minimal *= 2 + xm * 1e-8; // rounding errors
  f.delta = minimal * (2 + g.positive(3)) * (g.coin() ? -1 : 1);
  if(f.wrong != Wrong::None && f.wrong != Wrong::Value && g.coin(1, 10))
  {
    g.tag("nan");
    f.delta = NAN;
  }
  g.log(name(f.wrong), " (", f.row, ", ", f.col, ") ", f.delta);
  g.tag(name(f.wrong));
}

void expect(Gen & g, int which, const SmoothPtr & f, const CheckOptions & opt, bool active)
{
  int v = active ? verdict(which, f->wrong) : 1;
  if(v == 0) throw pbt::Discard();
  g.nontrivial();
  g.tag(v > 0 ? "accepted" : "rejected");
  bool r = runCheck(which, f, opt);
  REQUIRE(r == (v > 0), checkName(which), v > 0 ? " rejects a correct function" : " accepts a function with ", v > 0 ? "" : name(f->wrong));
}
} // namespace

PROPERTY(configs, 60000, 1500000)
{
  World w;
  auto f = genSmooth(g, w, false, g.coin(1, 6));
  std::srand(static_cast<unsigned>(g.draw(1000)));
  CheckOptions opt;
  opt.verbose = g.coin(1, 5);
  opt.step = g.pick(std::vector<double>{1e-7, 1e-6, 1e-5, 1e-8});
  int n = f->n();
  int k = g.range(1, 4);
  Bounds B;
  double xmax = 0;
  std::vector<VectorXd> xs;
  // accelerations are sometimes large
  double am = g.coin(1, 4) ? 100 : 2;
  int which = g.range(0, 3);
  for(int i = 0; i < k; ++i)
  {
    CheckOptions::CheckConfiguration c;
    VectorXd x = g.bulkVec(n, g.coin(1, 5) ? 20 : 2), v = g.bulkVec(n, 2), a = g.bulkVec(n, am);
    if(g.coin(1, 8)) v.setZero();
    c.value = x;
    c.velocity = v;
    c.acceleration = a;
    c.samples = static_cast<size_t>(g.range(0, 2)); // irrelevant
    if(which == 0 && g.coin(1, 3))
    {
      c.velocity.reset();
      c.acceleration.reset();
    }
    if(which == 1 && g.coin(1, 3)) c.acceleration.reset();
    opt.configs.push_back(c);
    xs.push_back(x);
    xmax = std::max(xmax, x.norm());
    MatrixXd J = f->jac(x);
    B |= bounds(*f, opt.step, x.norm(), v.norm(), a.norm(), J.colwise().norm().maxCoeff(), (J * v).norm(), (J * a + f->nacc(x, v)).norm());
  }
  if(g.coin(1, 6))
  {
    // a configuration that does not have the right size is not considered
    CheckOptions::CheckConfiguration c = opt.configs[static_cast<size_t>(g.range(0, k - 1))];
    VectorXd bad = g.bulkVec(n > 1 && g.coin() ? n - 1 : n + 1, 2);
    int part = which == 1 ? g.range(0, 1) : which == 2 ? g.range(0, 2) : 0;
    (part == 0 ? c.value : part == 1 ? c.velocity : c.acceleration) = bad;
    opt.configs.insert(opt.configs.begin() + g.range(0, k), c);
    g.log("and a configuration with ", part == 0 ? "a value" : part == 1 ? "a velocity" : "an acceleration", " of size ", bad.size());
    g.tag("configuration with a wrong size");
  }
  double need = which == 0 ? B.j : which == 1 ? B.v : which == 2 ? B.a : std::max({B.j, B.v, B.a});
  opt.prec = std::max(1e-6, 3 * need) * (g.coin() ? 1 : g.positive(4) + 1);
  g.log(checkName(which), " on ", k, " configurations, step ", opt.step, ", precision ", opt.prec);
  if(opt.prec > .1) throw pbt::Discard();
  genWrong(g, *f, B, opt.prec, xmax);
  bool active = true;
  if(f->wrong != Wrong::None && f->wrong != Wrong::Value && g.coin())
  {
    f->where = g.range(0, n - 1);
    f->threshold = g.pick(xs)[f->where] + (g.coin() ? 1e-3 : -1e-3);
    active = false;
    for(auto & x : xs)
    {
      if(std::abs(x[f->where] - f->threshold) < 5e-4) throw pbt::Discard();
      active = active || f->active(x);
    }
    g.log("only where X[", f->where, "] > ", f->threshold);
    g.tag(active ? "wrong for one configuration at least" : "wrong elsewhere");
  }
  expect(g, which, f, opt, active);
}

PROPERTY(sampled, 40000, 1000000)
{
  World w;
  bool linear = g.coin(1, 3);
  auto f = genSmooth(g, w, true, linear);
  std::srand(static_cast<unsigned>(g.draw(1000)));
  CheckOptions opt;
  opt.verbose = g.coin(1, 5);
  opt.step = g.pick(std::vector<double>{1e-7, 1e-6, 1e-5});
  int n = f->n();
  double s = f->A.jacobiSvd().singularValues().minCoeff();
  // random values and velocities are in [-1,1], random accelerations are normalized
  double xm = std::sqrt(n), vm = std::sqrt(n), lowA = 1, am = 1;
  int which = g.range(0, 3);
  if(g.coin())
  {
    opt.samples = static_cast<size_t>(g.range(0, 4));
    int k = g.range(0, 3);
    for(int i = 0; i < k; ++i)
    {
      CheckOptions::CheckConfiguration c;
      if(which == 0 || which == 3 || g.coin()) c.value = g.bulkVec(n, 2);
      if(g.coin()) c.velocity = g.bulkVec(n, 2);
      if(g.coin()) c.acceleration = g.bulkVec(n, 2);
      c.samples = static_cast<size_t>(g.range(1, 3));
      if(c.value) xm = std::max(xm, c.value->norm());
      if(c.velocity) vm = std::max(vm, c.velocity->norm());
      if(c.acceleration)
      {
        am = std::max(am, c.acceleration->norm());
        lowA = std::min(lowA, c.acceleration->norm());
      }
      opt.configs.push_back(c);
    }
    g.log(opt.samples, " samples and ", k, " partial configurations");
    if(k) g.tag("partial configurations");
  }
  double low = s - f->m2() * xm - (f->c.cwiseAbs().cwiseProduct(f->W.rowwise().norm())).norm();
  if(low <= .1) throw pbt::Discard();
  double la = low * lowA - f->m2() * vm * vm;
  if(la <= .01) throw pbt::Discard();
  // the velocities can be small, but so are the rounding errors then
  Bounds B = bounds(*f, opt.step, xm, vm, am, low, low * 1e-6, la);
  double need = which == 0 ? B.j : which == 1 ? B.v : which == 2 ? B.a : std::max({B.j, B.v, B.a});
  opt.prec = std::max(1e-6, 3 * need) * (g.coin() ? 1 : g.positive(4) + 1);
  g.log(checkName(which), " step ", opt.step, ", precision ", opt.prec);
  if(opt.prec > .1) throw pbt::Discard();
  genWrong(g, *f, B, opt.prec, xm);
  if(linear) g.tag("linear");
  expect(g, which, f, opt, true);
}

namespace
{
/** A function with constant jacobian matrices (its value is not used)*/
class OnManifold : public tvm::function::abstract::Function
{
public:
  SET_UPDATES(OnManifold, Velocity)
  std::vector<MatrixXd> J;
  VectorXd delta;
  OnManifold(const std::vector<VariablePtr> & x, int m, const std::vector<MatrixXd> & J) : Function(m), J(J), delta(VectorXd::Zero(m))
  {
    registerUpdates(Update::Velocity, &OnManifold::updateVelocity);
    addOutputDependency<OnManifold>(Output::Velocity, Update::Velocity);
    size_t i = 0;
    for(auto & v : x)
    {
      addVariable(v, false);
      jacobian_[v.get()] = J[i++];
    }
    value_.setZero();
    normalAcceleration_.setZero();
  }
  void updateVelocity()
  {
    velocity_ = delta;
    size_t i = 0;
    for(auto & x : variables()) velocity_ += J[i++] * dot(x)->value();
  }
};
template<int K>
class Missing : public OnManifold
{
public:
  using OnManifold::OnManifold;
};
template<>
class Missing<0> : public OnManifold
{
public:
  using OnManifold::OnManifold;
  DISABLE_OUTPUTS(Output::Value)
};
template<>
class Missing<1> : public OnManifold
{
public:
  using OnManifold::OnManifold;
  DISABLE_OUTPUTS(Output::Jacobian)
};
template<>
class Missing<2> : public OnManifold
{
public:
  using OnManifold::OnManifold;
  DISABLE_OUTPUTS(Output::Velocity)
};
template<>
class Missing<3> : public OnManifold
{
public:
  using OnManifold::OnManifold;
  DISABLE_OUTPUTS(Output::NormalAcceleration)
};

struct ManifoldCase
{
  World w;
  std::vector<VariablePtr> x;
  std::vector<MatrixXd> J;
  int m, nr = 0, nt = 0;
  bool euclidean = true;
  ManifoldCase(Gen & g)
  {
    w.generate(g, 3, 2, false, 2, 1);
    m = g.range(1, 3);
    for(auto & r : w.pool.roots)
    {
      if(r.v->size() == 0) continue;
      x.push_back(r.v);
      nr += r.v->size();
      nt += dot(r.v)->size();
      euclidean = euclidean && r.v->isEuclidean();
      J.push_back(g.bulk(m, dot(r.v)->size(), 2));
    }
    if(x.empty()) throw pbt::Discard();
  }
};
} // namespace

PROPERTY(manifold, 15000, 300000)
{
  ManifoldCase c(g);
  auto f = std::make_shared<OnManifold>(c.x, c.m, c.J);
  std::srand(static_cast<unsigned>(g.draw(1000)));
  CheckOptions opt;
  opt.verbose = g.coin(1, 5);
  opt.samples = static_cast<size_t>(g.range(0, 2));
  bool wrong = g.coin();
  double vm = std::sqrt(c.nt);
  if(g.coin())
  {
    CheckOptions::CheckConfiguration k;
    if(g.coin()) k.value = g.bulkVec(c.nr);
    if(g.coin()) k.velocity = g.bulkVec(c.nt);
    if(k.velocity) vm = std::max(vm, k.velocity->norm());
    opt.configs.push_back(k);
  }
  if(wrong)
  {
    double jn = 0;
    for(auto & J : c.J) jn += J.norm();
    f->delta[g.range(0, c.m - 1)] = (1e-9 + 2 * opt.prec * jn * vm) * (1 + g.positive(2));
  }
  g.log("velocity check of a ", wrong ? "wrong" : "right", " function on ", c.x.size(), " variables (", c.nr, ", ", c.nt, ")");
  g.tag(c.euclidean ? "Euclidean" : "non-Euclidean");
  g.nontrivial();
  bool r = runCheck(1, f, opt);
  REQUIRE(r == !wrong, "checkVelocity ", r ? "accepts a wrong function" : "rejects a correct function");
}

PROPERTY(refused, 2000, 20000)
{
  ManifoldCase c(g);
  int k = g.range(0, 4);
  FunctionPtr f;
  switch(k)
  {
    case 0: f = std::make_shared<Missing<0>>(c.x, c.m, c.J); break;
    case 1: f = std::make_shared<Missing<1>>(c.x, c.m, c.J); break;
    case 2: f = std::make_shared<Missing<2>>(c.x, c.m, c.J); break;
    case 3: f = std::make_shared<Missing<3>>(c.x, c.m, c.J); break;
    default: f = std::make_shared<OnManifold>(c.x, c.m, c.J);
  }
  int which = g.range(0, 3);
  // outputs required by each check
  static const bool req[4][4] = {{true, true, false, false}, {false, true, true, false}, {false, true, true, true}, {true, true, true, true}};
  bool bad = (k < 4 && req[which][k]) || (which != 1 && !c.euclidean);
  g.log(checkName(which), " without output ", k, c.euclidean ? " on Euclidean variables" : " on non-Euclidean variables");
  if(!bad) throw pbt::Discard();
  g.nontrivial();
  CheckOptions opt;
  opt.verbose = false;
  REQUIRE_THROWS(runCheck(which, f, opt), std::exception, checkName(which), " can not be performed on this function");
}
