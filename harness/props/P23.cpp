#include "world.h"
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/utils/UpdatelessFunction.h>

using namespace vars;
using tvm::utils::UpdatelessFunction;
using F = tvm::function::abstract::Function;
using IL = std::initializer_list<double>;

const pbt::Info pbt::info = {
    "P23",
    "history: a function that is a leaf (quadratic, linear on manifold variables, or with a missing output) or a product of functions nested up to 3 levels, sharing leaves, on 1 to 3 variables or "
    "subvariables (with values and velocities of different sizes); up to 15 requests of any output to wrappers of the function and of its parts, passing vectors or initializer lists, per variable, "
    "per pairs or triplets with repetitions and omissions, or concatenated, with direct changes of variables in between and refused requests (wrong sizes, number of values, unknown variables, "
    "missing outputs); each result is compared with closed forms evaluated on a model of the values of the variables, and the variables with the model. some of them also "
    "with the outputs given by a new call graph. Non-trivial: at least 2 answered requests, of which one with initializer lists, pairs or concatenated vectors. "
    "Distinctness: the sequence of choices."};

namespace
{
/** Reference computation, from the current values of the variables*/
struct Ref
{
  virtual ~Ref() = default;
  virtual VectorXd rval() const = 0;
  virtual VectorXd rvel() const = 0;
  virtual VectorXd rna() const = 0;
  virtual MatrixXd rJ(const Variable & x) const = 0; // zero if there is no dependency
  virtual MatrixXd rJd(const Variable & x) const = 0;
};
MatrixXd block(const VariableVector & vv, const MatrixXd & M, const Variable & x, bool t)
{
  int s = 0;
  for(auto & v : vv)
  {
    int k = t ? v->space().tSize() : v->size();
    if(v.get() == &x) return M.middleCols(s, k);
    s += k;
  }
  return MatrixXd::Zero(M.rows(), t ? x.space().tSize() : x.size());
}

class Leaf : public QuadFun, public Ref
{
public:
  using QuadFun::QuadFun;
  VectorXd rval() const override { return val(X()); }
  VectorXd rvel() const override { return vel(X(), V()); }
  VectorXd rna() const override { return nacc(V()); }
  MatrixXd rJ(const Variable & x) const override { return block(variables(), jac(X()), x, true); }
  MatrixXd rJd(const Variable & x) const override { return block(variables(), jdot(V()), x, true); }
};

/** value = A X, velocity = J dX, with A and J unrelated.*/
class Manifold : public F, public Ref
{
public:
  SET_UPDATES(Manifold, Value, Velocity)
  MatrixXd A, J;
  Manifold(const std::vector<VariablePtr> & x, const MatrixXd & A, const MatrixXd & J_) : Function(static_cast<int>(A.rows())), A(A), J(J_)
  {
    registerUpdates(Update::Value, &Manifold::updateValue, Update::Velocity, &Manifold::updateVelocity);
    addOutputDependency<Manifold>(Output::Value, Update::Value);
    addOutputDependency<Manifold>(Output::Velocity, Update::Velocity);
    int s = 0;
    for(auto & v : x) addVariable(v, false);
    for(auto & v : x)
    {
      int t = v->space().tSize();
      jacobian_[v.get()] = J.middleCols(s, t);
      JDot_[v.get()].setZero();
      s += t;
    }
    value_.setConstant(NAN);
    velocity_.setConstant(NAN);
    normalAcceleration_.setZero();
  }
  VectorXd dX() const
  {
    VectorXd v(J.cols());
    int s = 0;
    for(auto & x : variables())
    {
      int t = x->space().tSize();
      v.segment(s, t) = dot(x)->value();
      s += t;
    }
    return v;
  }
  void updateValue() { value_ = A * variables().value(); }
  void updateVelocity() { velocity_ = J * dX(); }
  VectorXd rval() const override { return A * variables().value(); }
  VectorXd rvel() const override { return J * dX(); }
  VectorXd rna() const override { return VectorXd::Zero(size()); }
  MatrixXd rJ(const Variable & x) const override { return block(variables(), J, x, true); }
  MatrixXd rJd(const Variable & x) const override { return MatrixXd::Zero(size(), x.space().tSize()); }
};

/** Component-wise product*/
class Product : public F, public Ref
{
public:
  SET_UPDATES(Product, Value, Jacobian, Velocity, NormalAcceleration, JDot)
  std::shared_ptr<F> f1, f2;
  const Ref *r1, *r2;
  Product(std::shared_ptr<F> a, std::shared_ptr<F> b) : Function(a->size()), f1(a), f2(b), r1(dynamic_cast<Ref *>(a.get())), r2(dynamic_cast<Ref *>(b.get()))
  {
    registerUpdates(Update::Value, &Product::updateValue, Update::Jacobian, &Product::updateJacobian, Update::Velocity, &Product::updateVelocity, Update::NormalAcceleration,
                    &Product::updateNormalAcceleration, Update::JDot, &Product::updateJDot);
    addOutputDependency<Product>(Output::Value, Update::Value);
    addOutputDependency<Product>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<Product>(Output::Velocity, Update::Velocity);
    addOutputDependency<Product>(Output::NormalAcceleration, Update::NormalAcceleration);
    addOutputDependency<Product>(Output::JDot, Update::JDot);
    auto dep = [&](std::shared_ptr<F> f) {
      addInputDependency<Product>(Update::Value, f, F::Output::Value);
      addInputDependency<Product>(Update::Jacobian, f, F::Output::Value, F::Output::Jacobian);
      addInputDependency<Product>(Update::Velocity, f, F::Output::Value, F::Output::Velocity);
      addInputDependency<Product>(Update::NormalAcceleration, f, F::Output::Value, F::Output::Velocity, F::Output::NormalAcceleration);
      addInputDependency<Product>(Update::JDot, f, F::Output::Value, F::Output::Jacobian, F::Output::Velocity, F::Output::JDot);
      for(auto & v : f->variables())
        if(!variables().contains(*v)) addVariable(v, false);
    };
    dep(f1);
    if(f2 != f1) dep(f2);
    value_.setConstant(NAN);
    velocity_.setConstant(NAN);
    normalAcceleration_.setConstant(NAN);
  }
  MatrixXd J(const F & f, const Variable & x) const { return f.variables().contains(x) ? MatrixXd(f.jacobian(x)) : MatrixXd::Zero(f.size(), x.space().tSize()); }
  MatrixXd Jd(const F & f, const Variable & x) const { return f.variables().contains(x) ? MatrixXd(f.JDot(x)) : MatrixXd::Zero(f.size(), x.space().tSize()); }
  void updateValue() { value_ = f1->value().cwiseProduct(f2->value()); }
  void updateJacobian()
  {
    for(auto & x : variables()) jacobian_[x.get()] = f1->value().asDiagonal() * J(*f2, *x) + f2->value().asDiagonal() * J(*f1, *x);
  }
  void updateVelocity() { velocity_ = f1->value().cwiseProduct(f2->velocity()) + f2->value().cwiseProduct(f1->velocity()); }
  void updateNormalAcceleration()
  {
    normalAcceleration_ = f1->value().cwiseProduct(f2->normalAcceleration()) + f2->value().cwiseProduct(f1->normalAcceleration()) + 2 * f1->velocity().cwiseProduct(f2->velocity());
  }
  void updateJDot()
  {
    for(auto & x : variables())
      JDot_[x.get()] = f1->value().asDiagonal() * Jd(*f2, *x) + f2->value().asDiagonal() * Jd(*f1, *x) + MatrixXd(f1->velocity().asDiagonal() * J(*f2, *x))
                       + MatrixXd(f2->velocity().asDiagonal() * J(*f1, *x));
  }
  VectorXd rval() const override { return r1->rval().cwiseProduct(r2->rval()); }
  VectorXd rvel() const override { return r1->rval().cwiseProduct(r2->rvel()) + r2->rval().cwiseProduct(r1->rvel()); }
  VectorXd rna() const override { return r1->rval().cwiseProduct(r2->rna()) + r2->rval().cwiseProduct(r1->rna()) + 2 * r1->rvel().cwiseProduct(r2->rvel()); }
  MatrixXd rJ(const Variable & x) const override { return r1->rval().asDiagonal() * r2->rJ(x) + MatrixXd(r2->rval().asDiagonal() * r1->rJ(x)); }
  MatrixXd rJd(const Variable & x) const override
  {
    return r1->rval().asDiagonal() * r2->rJd(x) + MatrixXd(r2->rval().asDiagonal() * r1->rJd(x)) + MatrixXd(r1->rvel().asDiagonal() * r2->rJ(x))
           + MatrixXd(r2->rvel().asDiagonal() * r1->rJ(x));
  }
};

// Missing outputs
class NoValue : public Leaf
{
public:
  using Leaf::Leaf;
  DISABLE_OUTPUTS(Output::Value)
};
class NoJDot : public Leaf
{
public:
  using Leaf::Leaf;
  DISABLE_OUTPUTS(Output::JDot, Output::NormalAcceleration)
};
class NoVelocity : public Leaf
{
public:
  using Leaf::Leaf;
  DISABLE_OUTPUTS(Output::Velocity, Output::Jacobian)
};

struct Case
{
  Gen & g;
  World w;
  std::vector<VariablePtr> x; // variables available
  std::vector<std::shared_ptr<F>> fs; // the last one is the one of interest
  int m = 1;

  explicit Case(Gen & g) : g(g)
  {
    w.generate(g, 3, 2, !g.coin(1, 3), 2, 1);
    for(int i = 0, k = g.range(1, 3); i < k; ++i)
    {
      Piece q = genPiece(g, w.pool, 0);
      bool ok = q.size > 0 && q.d == 0;
      for(auto & y : x) ok = ok && !y->intersects(*q.p);
      if(ok) x.push_back(q.p);
    }
    if(x.empty()) throw pbt::Discard();
    m = g.range(1, 3);
    int k = g.range(1, 3);
    for(int i = 0; i < k; ++i) leaf();
    int p = g.weighted({2, 3, 3, 1});
    for(int i = 0; i < p; ++i)
    {
      auto a = g.pick(fs), b = g.pick(fs);
      g.log("f", fs.size(), " is a product");
      fs.push_back(std::make_shared<Product>(a, b));
    }
    if(p >= 2) g.tag("nested");
    if(g.coin(1, 5))
    {
      // not part of a product, as it misses outputs
      if(auto f = simple(g.range(1, 3)))
      {
        fs.push_back(f);
        g.tag("missing output");
      }
    }
  }
  std::shared_ptr<F> simple(int missing)
  {
    std::vector<VariablePtr> y;
    int n = 0;
    for(auto & v : x)
      if(v->isEuclidean() && (missing || g.coin()))
      {
        y.push_back(v);
        n += v->size();
      }
    if(y.empty()) return nullptr;
    MatrixXd A = g.bulk(m, n);
    VectorXd b = g.bulkVec(m);
    std::vector<MatrixXd> Q;
    for(int i = 0; i < m; ++i)
    {
      MatrixXd S = g.bulk(n, n, 1);
      Q.push_back(S + S.transpose());
    }
    g.log("f", fs.size(), " quadratic on ", y.size(), " variables", missing ? ", with missing outputs" : "");
    switch(missing)
    {
      case 0: return std::make_shared<Leaf>(y, A, Q, b);
      case 1: return std::make_shared<NoValue>(y, A, Q, b);
      case 2: return std::make_shared<NoJDot>(y, A, Q, b);
      default: return std::make_shared<NoVelocity>(y, A, Q, b);
    }
  }
  void leaf()
  {
    std::shared_ptr<F> f;
    if(g.coin(2, 3)) f = simple(0);
    if(!f)
    {
      std::vector<VariablePtr> y;
      int n = 0, t = 0;
      for(auto & v : x)
        if(g.coin() || y.empty())
        {
          y.push_back(v);
          n += v->size();
          t += v->space().tSize();
        }
      g.log("f", fs.size(), " linear on ", y.size(), " variables of total sizes ", n, " and ", t);
      if(n != t) g.tag("manifold");
      f = std::make_shared<Manifold>(y, g.bulk(m, n), g.bulk(m, t));
    }
    fs.push_back(f);
  }
};

/** Calls f with v as a vector or as an initializer list.*/
template<typename Fn>
void arg(const VectorXd & v, bool list, Fn && f)
{
  if(!list)
  {
    f(v);
    return;
  }
  switch(v.size())
  {
    case 0: f(IL{}); break;
    case 1: f(IL{v[0]}); break;
    case 2: f(IL{v[0], v[1]}); break;
    case 3: f(IL{v[0], v[1], v[2]}); break;
    case 4: f(IL{v[0], v[1], v[2], v[3]}); break;
    default: f(v);
  }
}

struct Arg
{
  VariablePtr x; // null if the variable is not given
  VectorXd val, vel;
  bool lval = false, lvel = false;
};

/** Expands the arguments [i,...) */
template<bool Vel, bool Pairs, int Max, typename Fn, typename... A>
void expand(const std::vector<Arg> & args, size_t i, Fn && fn, A &&... a)
{
  if(i == args.size())
  {
    if constexpr(sizeof...(A) > 0) fn(std::forward<A>(a)...);
    return;
  }
  if constexpr(Max > 0)
  {
    const Arg & e = args[i];
    arg(e.val, e.lval, [&](const auto & v) {
      if constexpr(Vel)
      {
        arg(e.vel, e.lvel, [&](const auto & dv) {
          if constexpr(Pairs)
            expand<Vel, Pairs, Max - 1>(args, i + 1, fn, std::forward<A>(a)..., *e.x, v, dv);
          else
            expand<Vel, Pairs, Max - 1>(args, i + 1, fn, std::forward<A>(a)..., v, dv);
        });
      }
      else if constexpr(Pairs)
        expand<Vel, Pairs, Max - 1>(args, i + 1, fn, std::forward<A>(a)..., *e.x, v);
      else
        expand<Vel, Pairs, Max - 1>(args, i + 1, fn, std::forward<A>(a)..., v);
    });
  }
  else
    pbt::fail("harness: too many arguments");
}

struct Result
{
  MatrixXd M;
};

/** Perform the request. out: 0 value, 1 jacobian, 2 velocity, 3 normal acceleration, 4 JDot*/
MatrixXd request(const UpdatelessFunction & uf, int out, const Variable & wrt, bool pairs, const std::vector<Arg> & args)
{
  MatrixXd R;
  auto val = [&](auto &&... a) {
    if(out == 0)
      R = uf.value(a...);
    else
      R = uf.jacobian(wrt, a...);
  };
  auto vel = [&](auto &&... a) {
    if(out == 2)
      R = uf.velocity(a...);
    else if(out == 3)
      R = uf.normalAcceleration(a...);
    else
      R = uf.JDot(wrt, a...);
  };
  if(out < 2)
  {
    if(pairs)
      expand<false, true, 4>(args, 0, val);
    else
      expand<false, false, 4>(args, 0, val);
  }
  else
  {
    if(pairs)
      expand<true, true, 3>(args, 0, vel);
    else
      expand<true, false, 3>(args, 0, vel);
  }
  return R;
}
const char * outName(int o) { return o == 0 ? "value" : o == 1 ? "jacobian" : o == 2 ? "velocity" : o == 3 ? "normalAcceleration" : "JDot"; }
bool enabled(const F & f, int o)
{
  switch(o)
  {
    case 0: return f.isOutputEnabled(F::Output::Value);
    case 1: return f.isOutputEnabled(F::Output::Jacobian);
    case 2: return f.isOutputEnabled(F::Output::Velocity);
    case 3: return f.isOutputEnabled(F::Output::NormalAcceleration);
    default: return f.isOutputEnabled(F::Output::JDot);
  }
}
void compareWithGraph(const std::shared_ptr<F> & f, int o, const Variable & wrt, const MatrixXd & R)
{
  tvm::graph::CallGraph gr;
  auto in = std::make_shared<tvm::graph::internal::Inputs>();
  switch(o)
  {
    case 0: in->addInput(f, F::Output::Value); break;
    case 1: in->addInput(f, F::Output::Jacobian); break;
    case 2: in->addInput(f, F::Output::Velocity); break;
    case 3: in->addInput(f, F::Output::NormalAcceleration); break;
    default: in->addInput(f, F::Output::JDot); break;
  }
  gr.add(in);
  gr.update();
  gr.execute();
  MatrixXd G;
  switch(o)
  {
    case 0: G = f->value(); break;
    case 1: G = f->jacobian(wrt); break;
    case 2: G = f->velocity(); break;
    case 3: G = f->normalAcceleration(); break;
    default: G = f->JDot(wrt); break;
  }
  REQUIRE_CLOSE(R, G, 1e-12, outName(o), " differs from the output of a call graph");
}
} // namespace


PROPERTY(history, 60000, 1500000)
{
  Case c(g);
  World & w = c.w;
  w.setAll(g);
  // wrappers of the last function and of some of the others
  std::vector<std::unique_ptr<UpdatelessFunction>> ufs;
  std::vector<size_t> of;
  ufs.push_back(std::make_unique<UpdatelessFunction>(c.fs.back()));
  of.push_back(c.fs.size() - 1);
  for(int k = g.range(0, 2); k > 0; --k)
  {
    of.push_back(g.draw(c.fs.size()));
    ufs.push_back(std::make_unique<UpdatelessFunction>(c.fs[of.back()]));
  }
  VariablePtr foreign = Space(2).createVariable("foreign");
  int answered = 0, special = 0;
  int n = g.range(1, 15);
  for(int step = 0; step < n; ++step)
  {
    if(g.coin(1, 6))
    {
      g.log("direct change of all variables");
      w.setAll(g);
    }
    size_t u = g.draw(ufs.size());
    const UpdatelessFunction & uf = *ufs[u];
    auto f = c.fs[of[u]];
    REQUIRE(uf.function() == f, "wrong function");
    const auto & vars = uf.variables();
    REQUIRE(vars.variables() == f->variables().variables(), "wrong variables");
    int nv = vars.numberOfVariables();
    int out = g.range(0, 4);
    bool vel = out >= 2;
    int how = g.range(0, 2); // per variable, pairs, concatenated
    int listMode = g.range(0, 2); // vectors, lists, mixed
    auto list = [&] { return listMode == 1 || (listMode == 2 && g.coin()); };
    std::vector<Arg> args;
    auto make = [&](VariablePtr x) {
      Arg a;
      a.x = x;
      a.val = g.bulkVec(x->size());
      a.vel = g.bulkVec(dot(x)->size());
      a.lval = list();
      a.lvel = list();
      return a;
    };
    int bad = g.coin(1, 5) ? g.range(1, 5) : 0;
    if(how == 0)
      for(int i = 0; i < nv; ++i) args.push_back(make(vars[i]));
    else if(how == 1)
      for(int i = 0, k = g.range(1, vel ? 3 : 4); i < k; ++i) args.push_back(make(vars[g.range(0, nv - 1)]));
    else
    {
      Arg a;
      int sr = 0, st = 0;
      for(auto & v : vars)
      {
        sr += v->size();
        st += dot(v)->size();
      }
      a.val = g.bulkVec(sr);
      a.vel = g.bulkVec(st);
      a.lval = list();
      a.lvel = list();
      args.push_back(a);
    }
    VariablePtr wrt = vars[g.range(0, nv - 1)];
    const char * why = nullptr;
    if(bad == 1)
    {
      why = "wrong size";
      Arg & a = args[g.draw(args.size())];
      VectorXd & v = vel && g.coin() ? a.vel : a.val;
      int k = static_cast<int>(v.size());
      v = g.bulkVec(g.coin() ? k + 1 : k - 1);
    }
    else if(bad == 2 && how == 0 && nv == 3)
    {
      why = "too few values";
      args.pop_back();
    }
    else if(bad == 3 && how == 0)
    {
      why = "too many values";
      args.push_back(make(vars[g.range(0, nv - 1)]));
      if(vel && args.size() > 3) continue;
    }
    else if(bad == 4 && how == 1)
    {
      why = "unknown variable";
      std::vector<VariablePtr> unknown = {foreign, dot(vars[0])};
      for(auto & y : c.x)
        if(!vars.contains(*y)) unknown.push_back(y);
      args[g.draw(args.size())] = make(g.pick(unknown));
    }
    else if(bad == 5 && (out == 1 || out == 4))
    {
      why = "derivative with respect to an unknown variable";
      wrt = foreign;
    }
    if(!enabled(*f, out)) why = "missing output";
    g.log(outName(out), " of f", of[u], how == 0 ? " per variable" : how == 1 ? " with pairs" : " concatenated", " (", args.size(), ")", listMode == 0 ? "" : listMode == 1 ? " lists" : " mixed",
          why ? ", " : "", why ? why : "");
    if(why)
    {
      g.tag("refused");
      REQUIRE_THROWS(request(uf, out, *wrt, how == 1, args), std::exception, "this request is not valid: ", why);
      continue;
    }
    VectorXd model = w.all();
    if(how == 2)
    {
      int sr = 0, st = 0;
      for(auto & v : vars)
      {
        int tv = dot(v)->size();
        model.segment(w.start(*v), v->size()) = args[0].val.segment(sr, v->size());
        if(vel) model.segment(w.start(*dot(v)), tv) = args[0].vel.segment(st, tv);
        sr += v->size();
        st += tv;
      }
    }
    else
      for(auto & a : args)
      {
        model.segment(w.start(*a.x), a.x->size()) = a.val;
        if(vel) model.segment(w.start(*dot(a.x)), a.vel.size()) = a.vel;
      }
    MatrixXd R = request(uf, out, *wrt, how == 1, args);
    REQUIRE(w.all() == model, "the variables do not have the values given");
    ++answered;
    if(how || listMode) ++special;
    const Ref & r = *dynamic_cast<Ref *>(f.get());
    MatrixXd E = out == 0 ? MatrixXd(r.rval()) : out == 1 ? r.rJ(*wrt) : out == 2 ? MatrixXd(r.rvel()) : out == 3 ? MatrixXd(r.rna()) : r.rJd(*wrt);
    REQUIRE_CLOSE(R, E, 1e-9, outName(out), " is not the one of the function for the values given");
    g.tag(outName(out));
    if(g.coin(1, 3))
    {
      // makes the outputs of the function obsolete, or not
      g.tag("call graph");
      compareWithGraph(f, out, *wrt, R);
    }
  }
  if(answered >= 2 && special) g.nontrivial();
}
