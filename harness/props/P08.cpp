#include "td.h"
#include <tvm/Task.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/task_dynamics/Clamped.h>
#include <tvm/task_dynamics/FeedForward.h>
#include <tvm/task_dynamics/VelocityDamper.h>

using namespace vars;
using constraint::Type;
using Impl = td::abstract::TaskDynamicsImpl;

const pbt::Info pbt::info = {
    "P08",
    "simple: a non-composed task dynamics with random parameters on a quadratic function, with up to 6 updates interleaved with changes of state and of gains. "
    "composed: Clamped, FeedForward and combinations over P, PD, Reference, OneStepToZero, Constant, VelocityDamper. damper: VelocityDamper with constant or automatic damping, "
    "whose states move in and out of the interaction distance. refused: invalid parameters. Non-trivial: several updates with different states (simple), a clamping which is active (composed), "
    "at least one dimension inside and one outside of the interaction distance over the history (damper). Distinctness: the sequence of choices."};

namespace
{
struct Bed
{
  World w;
  QuadFunPtr f;
  std::shared_ptr<function::BasicLinearFunction> lf;
  FunctionPtr fun;
  int m;
  VectorXd rhs;
  Type t;
  std::vector<VariablePtr> refVars;
  void make(Gen & g, bool linear = false, bool basic = false)
  {
    w.generate(g, 2, 2, true, 2, 3);
    w.setAll(g);
    m = g.range(1, 4);
    std::vector<VariablePtr> xs;
    for(auto & q : w.disjoint(g, 2, 0)) xs.push_back(q.p);
    f = genQuad(g, m, xs, linear);
    fun = f;
    if(basic)
    {
      std::vector<MatrixXd> A;
      int s = 0;
      for(auto & x : xs)
      {
        A.push_back(f->A.middleCols(s, x->size()));
        s += x->size();
      }
      std::vector<MatrixConstRef> Ar(A.begin(), A.end());
      lf = std::make_shared<function::BasicLinearFunction>(Ar, xs, f->b);
      fun = lf;
    }
    rhs = g.bulkVec(m);
    t = g.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN});
    refVars = {w.var(0, 3)};
    g.log("size ", m, " type ", static_cast<int>(t), " rhs ", rhs.transpose());
  }
  VectorXd F() const { return f->val(f->X()); }
  VectorXd Fd() const { return f->vel(f->X(), f->V()); }
};

/** Updates the value of an implementation through a call graph.*/
struct Runner
{
  graph::CallGraph gr;
  Runner(const TaskDynamicsPtr & i)
  {
    auto in = std::make_shared<graph::internal::Inputs>();
    in->addInput(i, Impl::Output::Value);
    gr.add(in);
    gr.update();
  }
  void operator()() { gr.execute(); }
};
GainV changeGain(Gen & g, int m, bool spd)
{
  GainV k = genGain(g, m, spd);
  g.log("new gain of kind ", k.kind);
  return k;
}
/** Compares a gain read from an implementation*/
template<typename G>
void checkGain(const G & gain, const GainV & ref)
{
  REQUIRE(static_cast<int>(gain.index()) == ref.kind);
  if(ref.kind == 0) REQUIRE(mpark::get<double>(gain) == ref.s);
  if(ref.kind == 1) REQUIRE(mpark::get<VectorXd>(gain) == ref.v);
  if(ref.kind == 2) REQUIRE(mpark::get<MatrixXd>(gain) == ref.M);
}
/** Run-time change of the gains of t, whose implementation is i.*/
void changeGains(Gen & g, TD & t, Impl & i)
{
  int m = t.m;
  if(t.kind == TK::P)
  {
    auto & p = dynamic_cast<td::Proportional::Impl &>(i);
    if(g.coin(1, 4))
    {
      REQUIRE_THROWS(p.gain(VectorXd::Ones(m + 1).eval()), std::runtime_error);
      REQUIRE_THROWS(p.gain(MatrixXd::Ones(m, m + 1).eval()), std::runtime_error);
      REQUIRE_THROWS(p.gain(MatrixXd::Ones(m + 1, m).eval()), std::runtime_error);
      return;
    }
    t.kp = changeGain(g, m, false);
    if(g.coin())
      withGain(t.kp, [&](const auto & a) { p.gain(a); });
    else
      withGain(t.kp, [&](const auto & a) { p.gain() = a; });
    checkGain(p.gain(), t.kp);
  }
  else if(t.kind == TK::PD || t.kind == TK::PDcrit)
  {
    auto & p = dynamic_cast<td::ProportionalDerivative::Impl &>(i);
    switch(g.range(0, 3))
    {
      case 0:
      {
        VectorXd v = VectorXd::Ones(m + 1);
        MatrixXd M = MatrixXd::Ones(m, m + 1), ok = MatrixXd::Identity(m, m);
        REQUIRE_THROWS(p.gains(v), std::runtime_error);
        REQUIRE_THROWS(p.gains(M), std::runtime_error);
        REQUIRE_THROWS(p.gains(v, 1.), std::runtime_error);
        REQUIRE_THROWS(p.gains(1., v), std::runtime_error);
        REQUIRE_THROWS(p.gains(ok, M), std::runtime_error);
        REQUIRE_THROWS(p.gains(M, ok), std::runtime_error);
        break;
      }
      case 1:
        t.kind = TK::PDcrit;
        t.kp = changeGain(g, m, true);
        withGain(t.kp, [&](const auto & a) { p.gains(a); });
        checkGain(p.kp(), t.kp);
        break;
      case 2:
        t.kind = TK::PD;
        t.kp = changeGain(g, m, false);
        t.kv = changeGain(g, m, false);
        withGain(t.kp, [&](const auto & a) { withGain(t.kv, [&](const auto & b) { p.gains(a, b); }); });
        checkGain(p.gains().first, t.kp);
        checkGain(p.gains().second, t.kv);
        break;
      default:
        t.kind = TK::PD;
        t.kp = changeGain(g, m, false);
        t.kv = changeGain(g, m, false);
        withGain(t.kp, [&](const auto & a) { p.kp() = a; });
        withGain(t.kv, [&](const auto & a) { p.kv() = a; });
        checkGain(p.kp(), t.kp);
        checkGain(p.kv(), t.kv);
    }
  }
}

/** The accessor of a task by type of its dynamics gives them if they have this type, and is refused otherwise.*/
template<typename T>
void checkTyped(const Task & task)
{
  using I = typename T::Impl;
  auto is = [](const TaskDynamicsPtr & p) { return dynamic_cast<const I *>(p.get()) != nullptr; };
  if(is(task.taskDynamics()))
  {
    REQUIRE(task.taskDynamics<T>() == task.taskDynamics());
    REQUIRE(task.taskDynamics()->template checkType<I>());
  }
  else
    REQUIRE_THROWS(task.taskDynamics<T>(), std::runtime_error);
  if(is(task.secondBoundTaskDynamics()))
    REQUIRE(task.secondBoundTaskDynamics<T>() == task.secondBoundTaskDynamics());
  else
    REQUIRE_THROWS(task.secondBoundTaskDynamics<T>(), std::runtime_error);
}
void checkAccess(const Task & task)
{
  checkTyped<td::None>(task);
  checkTyped<td::Constant>(task);
  checkTyped<td::OneStepToZero>(task);
  checkTyped<td::P>(task);
  checkTyped<td::PD>(task);
  checkTyped<td::Reference>(task);
  checkTyped<td::VelocityDamper>(task);
  checkTyped<td::Clamped<td::P>>(task);
  checkTyped<td::FeedForward<td::PD>>(task);
}
} // namespace

PROPERTY(simple, 60000, 600000)
{
  TK k = static_cast<TK>(g.range(0, 9));
  Bed b;
  b.make(g, k == TK::None, k == TK::None);
  TD t = genTD(g, k, b.m, b.refVars);
  g.log(tkName(k));
  REQUIRE(static_cast<int>(t.td->order()) == t.order());
  // Either alone or in a task
  bool ds = g.coin();
  VectorXd rhs2 = b.rhs + g.bulkVec(b.m).cwiseAbs();
  TaskDynamicsPtr i, i2;
  if(ds)
  {
    Task task(b.fun, Type::DOUBLE_SIDED, *t.td, b.rhs, rhs2);
    i = task.taskDynamics();
    i2 = task.secondBoundTaskDynamics();
    checkAccess(task);
  }
  else if(g.coin())
  {
    Task task(b.fun, b.t, *t.td, b.rhs);
    i = task.taskDynamics();
    REQUIRE(task.secondBoundTaskDynamics() == nullptr);
    REQUIRE(task.type() == b.t && task.function() == b.fun);
    checkAccess(task);
  }
  else
    i = t.td->impl(b.fun, b.t, b.rhs);
  // the description is not needed any more
  t.td.reset();
  REQUIRE(static_cast<int>(i->order()) == t.order());
  Runner r(i);
  std::unique_ptr<Runner> r2;
  TD t2 = t;
  if(ds) r2 = std::make_unique<Runner>(i2);
  int n = g.range(1, 6);
  for(int it = 0; it < n; ++it)
  {
    r();
    REQUIRE_CLOSE(i->value(), t.value(b.rhs, b.F(), b.Fd(), b.f->b));
    if(ds)
    {
      (*r2)();
      REQUIRE_CLOSE(i2->value(), t2.value(rhs2, b.F(), b.Fd(), b.f->b));
    }
    if(g.coin(2, 3)) b.w.setAll(g);
    if(g.coin(1, 3)) changeGains(g, t, *i);
    if(ds && g.coin(1, 3)) changeGains(g, t2, *i2);
    if(b.lf && g.coin(1, 3))
    {
      b.f->b = g.bulkVec(b.m);
      b.lf->b(b.f->b);
    }
  }
  if(n > 1) g.nontrivial();
}

namespace
{
class FFProvider : public graph::abstract::Node<FFProvider>
{
public:
  SET_OUTPUTS(FFProvider, Value, Other)
  SET_UPDATES(FFProvider, Value)
  VectorXd next;
  FFProvider(int n) : next(VectorXd::Zero(n)), value_(VectorXd::Constant(n, NAN))
  {
    registerUpdates(Update::Value, &FFProvider::update);
    addOutputDependency(Output::Value, Update::Value);
  }
  const VectorXd & value() const { return value_; }
  void update() { value_ = next; }

private:
  VectorXd value_;
};

/** Reference for the composition of feed-forward (applied first or second) and clamping*/
struct Comp
{
  std::vector<int> layers; // 0: feed-forward, 1: clamped. From the inside to the outside
  VectorXd min, max;
  bool active = false;
  VectorXd apply(VectorXd v, const VectorXd & ff)
  {
    for(int l : layers)
    {
      if(l == 0)
        v += ff;
      else
      {
        double s = 1;
        for(Eigen::Index i = 0; i < v.size(); ++i)
        {
          if(v[i] > max[i]) s = std::min(s, max[i] / v[i]);
          if(v[i] < min[i]) s = std::min(s, min[i] / v[i]);
        }
        if(s < 1) active = true;
        v *= s;
      }
    }
    return v;
  }
};

using B = std::shared_ptr<td::abstract::TaskDynamics>;

/** Calls fn(args...) with the arguments for the bounds of the clamping, in one of the possible ways.*/
template<typename Fn>
B withBounds(Gen & g, int m, Comp & c, Fn && fn)
{
  switch(g.range(0, 3))
  {
    case 0:
    {
      double x = g.positive(2);
      c.max = VectorXd::Constant(m, x);
      c.min = -c.max;
      g.log("bounds +/-", x);
      return fn(x);
    }
    case 1:
    {
      double x = g.positive(2), y = -g.positive(2);
      if(g.coin(1, 8)) y = 0;
      if(g.coin(1, 8)) x = 0;
      c.max = VectorXd::Constant(m, x);
      c.min = VectorXd::Constant(m, y);
      g.log("bounds ", y, " ", x);
      return fn(std::pair<double, double>(y, x));
    }
    case 2:
      c.max = g.posVec(m, 2);
      c.min = -c.max;
      g.log("bounds +/-", c.max.transpose());
      return fn(VectorConstRef(c.max));
    default:
      c.max = g.posVec(m, 2);
      c.min = -g.posVec(m, 2);
      if(g.coin(1, 8)) c.max[g.range(0, m - 1)] = 0;
      g.log("bounds ", c.min.transpose(), " / ", c.max.transpose());
      return fn(std::pair<VectorConstRef, VectorConstRef>(c.min, c.max));
  }
}

/** Build one of the compositions over T*/
template<typename T, typename... Args>
B compose(Gen & g, int kind, Comp & c, const std::shared_ptr<FFProvider> & p, int m, const Args &... args)
{
  auto val = &FFProvider::value;
  switch(kind)
  {
    case 0: return withBounds(g, m, c, [&](auto && bd) -> B { return std::make_shared<td::Clamped<T>>(bd, args...); });
    case 1: return std::make_shared<td::FeedForward<T>>(p, val, FFProvider::Output::Value, args...);
    case 2: return withBounds(g, m, c, [&](auto && bd) -> B { return std::make_shared<td::Clamped<td::FeedForward<T>>>(bd, p, val, FFProvider::Output::Value, args...); });
    default:
      return withBounds(g, m, c, [&](auto && bd) -> B { return std::make_shared<td::FeedForward<td::Clamped<T>>>(p, val, FFProvider::Output::Value, bd, args...); });
  }
}
template<typename T>
bool isImpl(int kind, Impl & i)
{
  switch(kind)
  {
    case 0: return i.checkType<typename td::Clamped<T>::Impl>() && i.checkType<typename T::Impl>();
    case 1: return i.checkType<typename td::FeedForward<T>::Impl>() && i.checkType<typename T::Impl>();
    case 2: return i.checkType<typename td::Clamped<td::FeedForward<T>>::Impl>() && i.checkType<typename T::Impl>();
    default: return i.checkType<typename td::FeedForward<td::Clamped<T>>::Impl>() && i.checkType<typename T::Impl>();
  }
}
template<typename T>
void changeBounds(Gen & g, int kind, Comp & c, Impl & i)
{
  VectorXd mx = g.posVec(static_cast<int>(c.max.size()), 2), mn = -g.posVec(static_cast<int>(c.max.size()), 2);
  auto set = [&](auto & im) {
    REQUIRE(im.min() == c.min && im.max() == c.max);
    im.min() = mn;
    im.max() = mx;
  };
  if(kind == 0)
    set(dynamic_cast<typename td::Clamped<T>::Impl &>(i));
  else if(kind == 2)
    set(dynamic_cast<typename td::Clamped<td::FeedForward<T>>::Impl &>(i));
  else if(kind == 3)
    set(dynamic_cast<typename td::Clamped<T>::Impl &>(i));
  c.min = mn;
  c.max = mx;
}
} // namespace

PROPERTY(composed, 60000, 600000)
{
  const TK kinds[] = {TK::P, TK::PD, TK::PDcrit, TK::Step1, TK::Step2, TK::Constant, TK::Ref1, TK::Ref2, TK::None};
  TK k = kinds[g.range(0, 8)];
  Bed b;
  b.make(g, k == TK::None, k == TK::None);
  TD t = genTD(g, k, b.m, b.refVars);
  int kind = g.range(0, 3);
  if(k == TK::Constant || k == TK::None) kind = 1; // Clamped needs arguments for the inner dynamics
  const char * names[] = {"Clamped", "FeedForward", "Clamped<FeedForward>", "FeedForward<Clamped>"};
  g.log(names[kind], " over ", tkName(k));
  Comp c;
  c.layers = kind == 0 ? std::vector<int>{1} : kind == 1 ? std::vector<int>{0} : kind == 2 ? std::vector<int>{0, 1} : std::vector<int>{1, 0};
  auto ff = std::make_shared<FFProvider>(b.m);
  B d;
  switch(k)
  {
    case TK::P: d = withGain(t.kp, [&](const auto & a) -> B { return compose<td::Proportional>(g, kind, c, ff, b.m, a); }); break;
    case TK::PD: d = withGain(t.kp, [&](const auto & a) -> B { return withGain(t.kv, [&](const auto & v) -> B { return compose<td::PD>(g, kind, c, ff, b.m, a, v); }); }); break;
    case TK::PDcrit: d = withGain(t.kp, [&](const auto & a) -> B { return compose<td::PD>(g, kind, c, ff, b.m, a); }); break;
    case TK::Step1: d = compose<td::OneStepToZero>(g, kind, c, ff, b.m, td::Order::One, t.dt); break;
    case TK::Step2: d = compose<td::OneStepToZero>(g, kind, c, ff, b.m, td::Order::Two, t.dt); break;
    case TK::Constant: d = std::make_shared<td::FeedForward<td::Constant>>(ff, &FFProvider::value, FFProvider::Output::Value); break;
    case TK::None: d = std::make_shared<td::FeedForward<td::None>>(ff, &FFProvider::value, FFProvider::Output::Value); break;
    case TK::Ref1: d = compose<td::Reference>(g, kind, c, ff, b.m, td::Order::One, FunctionPtr(t.ref)); break;
    default: d = compose<td::Reference>(g, kind, c, ff, b.m, td::Order::Two, FunctionPtr(t.ref)); break;
  }
  REQUIRE(static_cast<int>(d->order()) == t.order());
  TaskDynamicsPtr i = Task(b.fun, b.t, *d, b.rhs).taskDynamics();
  d.reset();
  t.td.reset();
  REQUIRE(static_cast<int>(i->order()) == t.order());
  Runner r(i);
  int n = g.range(1, 4);
  for(int it = 0; it < n; ++it)
  {
    ff->next = g.bulkVec(b.m);
    r();
    REQUIRE_CLOSE(i->value(), c.apply(t.value(b.rhs, b.F(), b.Fd(), b.f->b), ff->next));
    if(g.coin(2, 3)) b.w.setAll(g);
    if(g.coin(1, 3)) changeGains(g, t, *i);
    if(kind != 1 && g.coin(1, 3))
    {
      if(k == TK::P) changeBounds<td::Proportional>(g, kind, c, *i);
      if(k == TK::PD || k == TK::PDcrit) changeBounds<td::PD>(g, kind, c, *i);
      if(k == TK::Step1 || k == TK::Step2) changeBounds<td::OneStepToZero>(g, kind, c, *i);
    }
  }
  if(k == TK::P) REQUIRE(isImpl<td::Proportional>(kind, *i));
  if(k == TK::PD) REQUIRE(isImpl<td::PD>(kind, *i));
  if(c.active || kind == 1) g.nontrivial();
}

PROPERTY(damper, 60000, 600000)
{
  // f is the identity on some variable, so that its value and velocity can be chosen.
  int m = g.range(1, 4);
  VariablePtr x = Space(m).createVariable("x");
  auto f = std::make_shared<QuadFun>(std::vector<VariablePtr>{x}, MatrixXd::Identity(m, m), std::vector<MatrixXd>(static_cast<size_t>(m), MatrixXd::Zero(m, m)), VectorXd::Zero(m));
  VectorXd rhs = g.vec(m);
  bool aniso = g.coin(), autoXsi = g.coin(), second = g.coin();
  VectorXd ds = aniso ? (g.posVec(m, 1) - VectorXd::Constant(m, .125)).eval() : VectorXd::Constant(m, g.positive(1) - .125);
  VectorXd di = ds + (aniso ? g.posVec(m, 2) : VectorXd::Constant(m, g.positive(2)));
  VectorXd xsi = aniso ? g.posVec(m) : VectorXd::Constant(m, g.positive());
  VectorXd off = aniso ? g.posVec(m) : VectorXd::Constant(m, g.positive());
  bool giveOff = g.coin(3, 4);
  if(!giveOff) off.setZero();
  double dt = g.positive(1), big = g.coin() ? constant::big_number : 100 * g.positive();
  bool defaultBig = big == constant::big_number && g.coin();
  Type t = g.pick(std::vector<Type>{Type::GREATER_THAN, Type::LOWER_THAN, Type::EQUAL, Type::DOUBLE_SIDED});
  VectorXd rhs2 = rhs + g.posVec(m);
  int clamp = g.range(0, 3); // 1: clamped, 2: feed-forward
  if(clamp == 3) clamp = 0;
  g.log("size ", m, " type ", static_cast<int>(t), aniso ? " anisotropic" : "", autoXsi ? " auto" : "", second ? " order 2" : " order 1", " composition ", clamp);
  g.log("ds ", ds.transpose(), " di ", di.transpose(), " xsi ", xsi.transpose(), " off ", off.transpose(), " rhs ", rhs.transpose(), " dt ", dt, " big ", big);
  using VD = td::VelocityDamper;
  B d;
  VectorXd xs = autoXsi ? VectorXd::Zero(m).eval() : xsi;
  Comp c;
  auto ff = std::make_shared<FFProvider>(m);
  if(clamp == 1)
  {
    c.layers = {1};
    c.max = VectorXd::Constant(m, 1e4); // far above any active value. Clamps values equal to big
    c.min = -c.max;
  }
  if(clamp == 2) c.layers = {0};
  auto build = [&](auto... a) -> B {
    if(clamp == 1) return std::make_shared<td::Clamped<VD>>(1e4, a...);
    if(clamp == 2) return std::make_shared<td::FeedForward<VD>>(ff, &FFProvider::value, FFProvider::Output::Value, a...);
    return std::make_shared<VD>(a...);
  };
  auto build2 = [&](auto cfg) -> B {
    if(second) return defaultBig ? build(dt, cfg) : build(dt, cfg, big);
    return defaultBig ? build(cfg) : build(cfg, big);
  };
  if(aniso)
    d = giveOff ? build2(VD::AnisotropicConfig(di, ds, xs, VectorConstRef(off))) : build2(VD::AnisotropicConfig(di, ds, xs));
  else
    d = giveOff ? build2(VD::Config(di[0], ds[0], xs[0], off[0])) : build2(VD::Config(di[0], ds[0], xs[0]));
  REQUIRE(static_cast<int>(d->order()) == (second ? 2 : 1));
  struct Side
  {
    TaskDynamicsPtr i;
    std::unique_ptr<Runner> r;
    bool lower; // f <= rhs
    VectorXd rhs;
    std::vector<bool> active;
    VectorXd xsi;
  };
  std::vector<Side> sides;
  if(t == Type::DOUBLE_SIDED)
  {
    Task task(f, t, *d, rhs, rhs2);
    sides.push_back({task.taskDynamics(), nullptr, false, rhs, {}, {}});
    sides.push_back({task.secondBoundTaskDynamics(), nullptr, true, rhs2, {}, {}});
  }
  else
    sides.push_back({d->impl(f, t, rhs), nullptr, t == Type::LOWER_THAN, rhs, {}, {}});
  d.reset();
  for(auto & s : sides)
  {
    s.r = std::make_unique<Runner>(s.i);
    s.active.assign(static_cast<size_t>(m), false);
    s.xsi = xsi;
    REQUIRE(static_cast<int>(s.i->order()) == (second ? 2 : 1));
  }
  int n = g.range(1, 6);
  bool in = false, out = false;
  for(int it = 0; it < n; ++it)
  {
    VectorXd X(m);
    for(int i = 0; i < m; ++i)
    {
      const Side & s = sides[static_cast<size_t>(g.range(0, static_cast<int>(sides.size()) - 1))];
      // distance around the interval [ds, di], with equality to di now and then
      double dist;
      switch(g.range(0, 5))
      {
        case 0: dist = di[i]; break;
        case 1: dist = di[i] + g.positive(); break;
        case 2: dist = ds[i] - g.positive(); break;
        default: dist = ds[i] + (di[i] - ds[i]) * (1 + g.range(0, 6)) / 8.;
      }
      X[i] = s.lower ? s.rhs[i] - dist : s.rhs[i] + dist;
    }
    x->set(X);
    dot(x)->set(g.vec(m));
    ff->next = g.bulkVec(m);
    for(auto & s : sides)
    {
      VectorXd e(m);
      bool skip = false;
      for(int i = 0; i < m; ++i)
      {
        double sg = s.lower ? -1 : 1;
        double dist = sg * (X[i] - s.rhs[i]), v = sg * dot(x)->value()[i];
        if(std::abs(dist - di[i]) < 1e-9 && dist != di[i]) skip = true; // rounding
        if(dist <= di[i])
        {
          in = true;
          if(autoXsi)
          {
            if(std::abs(dist - ds[i]) < 1e-6) skip = true; // the documented formula is infinite
            if(!s.active[static_cast<size_t>(i)]) s.xsi[i] = -(di[i] - ds[i]) / (dist - ds[i]) * v + off[i];
          }
          s.active[static_cast<size_t>(i)] = true;
          double vd = -s.xsi[i] * (dist - ds[i]) / (di[i] - ds[i]);
          e[i] = sg * (second ? (vd - v) / dt : vd);
        }
        else
        {
          out = true;
          s.active[static_cast<size_t>(i)] = false;
          e[i] = -sg * big;
        }
      }
      if(skip) throw pbt::Discard();
      (*s.r)();
      REQUIRE_CLOSE(s.i->value(), c.apply(e, ff->next), "x ", X.transpose(), " v ", dot(x)->value().transpose(), s.lower ? " (lower)" : "");
    }
  }
  if(in && out) g.nontrivial();
}

PROPERTY(refused, 6000, 40000)
{
  Bed b;
  b.make(g, false);
  int m = b.m;
  VectorXd bad = VectorXd::Ones(m + 1), ok = VectorXd::Ones(m), neg = VectorXd::Ones(m);
  neg[g.range(0, m - 1)] = -.5;
  MatrixXd badM = g.coin() ? MatrixXd::Ones(m, m + 1) : MatrixXd::Ones(m + 1, m);
  using VD = td::VelocityDamper;
  g.nontrivial();
  int k = g.range(0, 14);
  g.log("case ", k);
  switch(k)
  {
    case 0: REQUIRE_THROWS(td::Proportional(bad).impl(b.f, b.t, b.rhs), std::runtime_error); break;
    case 1: REQUIRE_THROWS(td::Proportional(badM).impl(b.f, b.t, b.rhs), std::runtime_error); break;
    case 2:
      REQUIRE_THROWS(td::OneStepToZero(td::Order::Zero, 1), std::runtime_error);
      REQUIRE_THROWS(td::OneStepToZero(static_cast<td::Order>(3), 1), std::runtime_error);
      break;
    case 3: REQUIRE_THROWS(td::OneStepToZero(td::Order::One, 0), std::runtime_error); REQUIRE_THROWS(td::OneStepToZero(td::Order::Two, -1), std::runtime_error); break;
    case 4: REQUIRE_THROWS(td::Proportional(1.).impl(b.f, b.t, bad), std::runtime_error); break;
    case 13: // no function
    {
      auto ref = std::make_shared<FFProvider>(m);
      switch(g.range(0, 7))
      {
        case 0: REQUIRE_THROWS(td::Proportional(1.).impl(nullptr, b.t, b.rhs), std::runtime_error); break;
        case 1: REQUIRE_THROWS(td::PD(1.).impl(nullptr, b.t, b.rhs), std::runtime_error); break;
        case 2: REQUIRE_THROWS(td::Constant().impl(nullptr, b.t, b.rhs), std::runtime_error); break;
        case 3: REQUIRE_THROWS(td::OneStepToZero(td::Order::One, 1).impl(nullptr, b.t, b.rhs), std::runtime_error); break;
        case 4: REQUIRE_THROWS(VD({1, .5, 1}).impl(nullptr, b.t, b.rhs), std::runtime_error); break;
        case 5: REQUIRE_THROWS(td::Clamped<td::P>(1., 2.).impl(nullptr, b.t, b.rhs), std::runtime_error); break;
        case 6: REQUIRE_THROWS(td::None().impl(nullptr, b.t, b.rhs), std::runtime_error); break;
        default: REQUIRE_THROWS(td::FeedForwardP(ref, &FFProvider::value, FFProvider::Output::Value, 2.).impl(nullptr, b.t, b.rhs), std::runtime_error);
      }
      break;
    }
    case 5: REQUIRE_THROWS(td::None().impl(b.f, b.t, b.rhs), std::runtime_error); break;
    case 6: REQUIRE_THROWS(td::Reference(td::Order::One, nullptr).impl(b.f, b.t, b.rhs), std::runtime_error); break;
    case 7:
      REQUIRE_THROWS(VD({.5, 1, 1}), std::runtime_error);
      REQUIRE_THROWS(VD({1, 1, 1}), std::runtime_error);
      REQUIRE_THROWS(VD({1, -.5, 1}), std::runtime_error);
      REQUIRE_THROWS(VD({1, .5, -1}), std::runtime_error);
      REQUIRE_THROWS(VD({1, .5, 0, -1}), std::runtime_error);
      REQUIRE_THROWS(VD(VD::Config(1, .5, 1), -1), std::runtime_error);
      REQUIRE_THROWS(VD(0, VD::Config(1, .5, 1)), std::runtime_error);
      REQUIRE_THROWS(VD(-1, VD::Config(1, .5, 1)), std::runtime_error);
      break;
    case 8:
    {
      VectorXd two = VectorXd::Constant(m, 2);
      REQUIRE_THROWS(VD::AnisotropicConfig(ok, two, ok), std::runtime_error);
      REQUIRE_THROWS(VD::AnisotropicConfig(two, neg, ok), std::runtime_error);
      REQUIRE_THROWS(VD::AnisotropicConfig(two, ok, neg), std::runtime_error);
      REQUIRE_THROWS(VD::AnisotropicConfig(two, ok, ok, VectorConstRef(neg)), std::runtime_error);
      REQUIRE_THROWS(VD::AnisotropicConfig(two, bad, ok), std::runtime_error);
      REQUIRE_THROWS(VD::AnisotropicConfig(two, ok, bad), std::runtime_error);
      if(m > 1)
      {
        VectorXd mixed = ok;
        mixed[0] = 0;
        REQUIRE_THROWS(VD::AnisotropicConfig(two, ok, mixed), std::runtime_error);
      }
      VectorXd b2 = 2 * bad;
      REQUIRE_THROWS(VD(VD::AnisotropicConfig(b2, bad, bad)).impl(b.f, b.t, b.rhs), std::runtime_error);
      break;
    }
    case 9: REQUIRE_THROWS(td::Clamped<td::P>(-1., 2.), std::runtime_error); break;
    case 10:
    {
      using Pr = std::pair<double, double>;
      REQUIRE_THROWS(td::Clamped<td::P>(Pr(.5, 1.), 2.), std::runtime_error);
      REQUIRE_THROWS(td::Clamped<td::P>(Pr(-1., -.5), 2.), std::runtime_error);
      break;
    }
    case 11:
    {
      using Pr = std::pair<VectorConstRef, VectorConstRef>;
      VectorXd p = ok, n = -ok;
      REQUIRE_THROWS(td::Clamped<td::P>(Pr(p, p), 2.), std::runtime_error);
      REQUIRE_THROWS(td::Clamped<td::P>(Pr(n, neg), 2.), std::runtime_error);
      VectorXd nb = -bad;
      REQUIRE_THROWS(td::Clamped<td::P>(Pr(nb, p), 2.), std::runtime_error);
      REQUIRE_THROWS(td::Clamped<td::P>(Pr(nb, bad), 2.).impl(b.f, b.t, b.rhs), std::runtime_error);
      break;
    }
    case 12:
    {
      auto ff = std::make_shared<FFProvider>(m + 1);
      REQUIRE_THROWS(td::FeedForwardP(ff, &FFProvider::value, FFProvider::Output::Value, 2.).impl(b.f, b.t, b.rhs), std::runtime_error);
      break;
    }
    default:
      // a task for a second bound which differs in order is refused when linearised; here: a task dynamics is not a reference one
      REQUIRE_THROWS(Task(b.f, b.t, td::P(1.)).taskDynamics<td::PD>(), std::runtime_error);
  }
}
