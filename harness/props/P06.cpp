#include "world.h"
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/graph/CallGraph.h>

using namespace vars;
using constraint::RHS;
using constraint::Type;
using tvm::internal::MatrixProperties;

const pbt::Info pbt::info = {
    "P06",
    "linear: a linear function (or identity, or a user-defined linear function with changing variables and size) on up to 4 (sub)variables or derivatives, "
    "followed by up to 8 changes of values, matrices or constant, each followed by an update of a random subset of outputs. constraint: a basic linear constraint "
    "by one of its constructors, changed and updated. slices: a function with arbitrary jacobians on (possibly non-Euclidean) variables. "
    "Non-trivial: at least one subvariable or derivative is involved and the data were changed after the first update. Distinctness: the sequence of choices."};

namespace
{
class UserLinear : public function::abstract::LinearFunction
{
public:
  UserLinear(int m) : LinearFunction(m) { b_.setZero(); }
  using FirstOrderProvider::splitJacobian;
  void add(VariablePtr v)
  {
    addVariable(v, true);
    setDerivativesToZero();
  }
  void remove(VariablePtr v) { removeVariable(v); }
  void changeSize(int m) { resize(m); }
  void set(const MatrixXd & A, const std::vector<VariablePtr> & x, const VectorXd & b)
  {
    splitJacobian(A, x);
    b_ = b;
  }
};

/** Reference: list of variables, with matrices and constant*/
struct RefFun
{
  std::vector<Piece> p;
  std::vector<MatrixXd> A;
  VectorXd b;
};

/** Piece for the derivative of q*/
Piece deriv(World & w, const Piece & q) { return w.pool.make(q.root, q.e0, q.ne, q.d + 1); }

VectorXd refValue(const RefFun & r, World & w, int d)
{
  VectorXd v = d ? VectorXd::Zero(r.b.size()).eval() : r.b;
  VectorXd all = w.all();
  for(size_t i = 0; i < r.p.size(); ++i)
  {
    Piece q = d ? deriv(w, r.p[i]) : r.p[i];
    v += r.A[i] * all.segment(w.start(q), q.size);
  }
  return v;
}

void checkSlices(Gen & g, World & w, const RefFun & r, const function::abstract::Function & f)
{
  MatrixXd D = MatrixXd::Zero(r.b.size(), w.N);
  for(size_t i = 0; i < r.p.size(); ++i) D.middleCols(w.start(r.p[i]), r.p[i].size) = r.A[i];
  std::vector<Piece> qs = r.p;
  for(int k = 0; k < 4; ++k) qs.push_back(genPiece(g, w.pool, 1));
  for(auto & q : qs)
  {
    bool in = false;
    for(auto & p : r.p) in = in || p.contains(q);
    if(in)
    {
      auto J = f.jacobian(*q.p);
      REQUIRE_CLOSE(J, D.middleCols(w.start(q), q.size), "wrt ", q.name);
      auto p = J.properties();
      if(p.isIdentity()) REQUIRE(J.isIdentity(0), q.name);
      if(p.isZero()) REQUIRE(J.isZero(0), q.name);
      if(p.isDiagonal() && J.rows() == J.cols()) REQUIRE(J.isDiagonal(0), q.name);
      MatrixXd Jd = f.JDot(*q.p);
      REQUIRE_CLOSE(Jd, MatrixXd::Zero(r.b.size(), q.size), "JDot wrt ", q.name);
      REQUIRE(f.linearIn(*q.p));
    }
    else
    {
      REQUIRE_THROWS(f.jacobian(*q.p), std::exception, q.name);
      REQUIRE_THROWS(f.JDot(*q.p), std::exception, q.name);
      REQUIRE_THROWS(f.linearIn(*q.p), std::exception, q.name);
    }
  }
}
} // namespace

PROPERTY(linear, 60000, 600000)
{
  using F = function::abstract::Function;
  World w;
  w.generate(g, 3, 3, g.coin(3, 4), 2, 2);
  w.setAll(g);
  RefFun r;
  int m = g.range(1, 4);
  int kind = g.range(0, 4);
  for(auto & q : w.disjoint(g, g.range(1, 4), 1))
    if(q.p->isEuclidean()) r.p.push_back(q);
  if(r.p.empty()) throw pbt::Discard();
  if(kind == 2)
  {
    r.p.resize(1, r.p[0]);
    m = r.p[0].size;
  }
  std::vector<VariablePtr> xs;
  std::vector<MatrixConstRef> As;
  for(auto & q : r.p)
  {
    xs.push_back(q.p);
    r.A.push_back(g.bulk(m, q.size));
    g.log(q.name, " ", pbt::mstr(r.A.back()));
  }
  for(auto & A : r.A) As.push_back(A);
  r.b = g.bulkVec(m);
  g.log("kind ", kind, " m ", m, " b ", r.b.transpose());
  std::shared_ptr<function::abstract::LinearFunction> f;
  std::shared_ptr<function::BasicLinearFunction> bf;
  std::shared_ptr<UserLinear> uf;
  switch(kind)
  {
    case 0:
      if(g.coin())
        bf = xs.size() == 1 && g.coin() ? std::make_shared<function::BasicLinearFunction>(As[0], xs[0], r.b) : std::make_shared<function::BasicLinearFunction>(As, xs, r.b);
      else
      {
        bf = xs.size() == 1 && g.coin() ? std::make_shared<function::BasicLinearFunction>(As[0], xs[0]) : std::make_shared<function::BasicLinearFunction>(As, xs);
        r.b.setZero();
      }
      break;
    case 1:
      bf = xs.size() == 1 && g.coin() ? std::make_shared<function::BasicLinearFunction>(m, xs[0]) : std::make_shared<function::BasicLinearFunction>(m, xs);
      for(size_t i = 0; i < xs.size(); ++i) bf->A(r.A[i], *xs[i]);
      bf->b(r.b);
      break;
    case 2:
      bf = std::make_shared<function::IdentityFunction>(xs[0]);
      r.A[0].setIdentity();
      r.b.setZero();
      break;
    default:
    {
      uf = std::make_shared<UserLinear>(m);
      MatrixXd A(m, 0);
      for(size_t i = 0; i < xs.size(); ++i)
      {
        uf->add(xs[i]);
        A.conservativeResize(m, A.cols() + r.A[i].cols());
        A.rightCols(r.A[i].cols()) = r.A[i];
      }
      uf->set(A, xs, r.b);
    }
  }
  f = bf ? std::static_pointer_cast<function::abstract::LinearFunction>(bf) : std::static_pointer_cast<function::abstract::LinearFunction>(uf);

  graph::CallGraph gr;
  auto inputs = std::make_shared<graph::internal::Inputs>();
  int ask = g.range(1, 3);
  if(ask & 1) inputs->addInput(f, F::Output::Value);
  if(ask & 2) inputs->addInput(f, F::Output::Velocity);
  inputs->addInput(f, F::Output::Jacobian);
  inputs->addInput(f, F::Output::NormalAcceleration, F::Output::JDot);
  gr.add(inputs);
  gr.update();

  bool changed = false;
  for(int k = g.range(1, 8); k > 0; --k)
  {
    if(g.coin(2, 3))
      gr.execute();
    else
    {
      if(ask & 1) f->updateValue();
      if(ask & 2) f->updateVelocity();
    }
    REQUIRE(f->size() == m);
    if(ask & 1)
    {
      REQUIRE_CLOSE(f->value(), refValue(r, w, 0));
    }
    if(ask & 2) { REQUIRE_CLOSE(f->velocity(), refValue(r, w, 1)); }
    REQUIRE_CLOSE(f->normalAcceleration(), VectorXd::Zero(m));
    REQUIRE_CLOSE(f->b(), r.b);
    checkSlices(g, w, r, *f);
    // changes
    int op = g.range(0, 5);
    changed = true;
    size_t i = static_cast<size_t>(g.range(0, static_cast<int>(r.p.size()) - 1));
    if(op <= 1)
    {
      if(op == 0)
        w.setAll(g);
      else
      {
        Piece q = genPiece(g, w.pool, 2);
        q.p->set(g.bulkVec(q.size));
        g.log("set ", q.name);
      }
    }
    else if(bf && kind != 2)
    {
      bool keepConst = g.coin();
      if(op == 2 || op == 3)
      {
        MatrixXd A = g.bulk(m, r.p[i].size);
        MatrixProperties p;
        if(g.coin() && m == r.p[i].size)
        {
          A = MatrixXd(A.diagonal().asDiagonal());
          p = {MatrixProperties::DIAGONAL, MatrixProperties::Constness(keepConst)};
        }
        else if(g.coin(1, 4) && m == r.p[i].size)
        {
          A.setIdentity();
          p = {MatrixProperties::IDENTITY};
        }
        else if(g.coin(1, 4))
        {
          A.setZero();
          p = {MatrixProperties::ZERO};
        }
        g.log("A ", r.p[i].name, " = ", pbt::mstr(A));
        if(r.p.size() == 1 && g.coin())
          bf->A(A, p);
        else
          bf->A(A, *r.p[i].p, p);
        r.A[i] = A;
      }
      else if(op == 4)
      {
        r.b = g.bulkVec(m);
        bf->b(r.b);
        g.log("b = ", r.b.transpose());
      }
      else
      {
        // refused changes
        REQUIRE_THROWS(bf->A(MatrixXd::Ones(m + 1, r.p[i].size), *r.p[i].p), std::runtime_error);
        REQUIRE_THROWS(bf->A(MatrixXd::Ones(m, r.p[i].size + 1), *r.p[i].p), std::runtime_error);
        REQUIRE_THROWS(bf->b(VectorXd::Ones(m + 1)), std::runtime_error);
        if(r.p.size() > 1) REQUIRE_THROWS(bf->A(MatrixXd::Ones(m, r.p[i].size)), std::runtime_error);
        VariablePtr other = Space(r.p[i].size).createVariable("other");
        REQUIRE_THROWS(bf->A(MatrixXd::Ones(m, r.p[i].size), *other), std::exception);
      }
    }
    else if(kind == 2)
    {
      REQUIRE_THROWS(bf->A(MatrixXd::Ones(m, m), *xs[0]), std::runtime_error);
      REQUIRE_THROWS(bf->A(MatrixXd::Ones(m, m)), std::runtime_error);
      REQUIRE_THROWS(bf->b(VectorXd::Ones(m)), std::runtime_error);
    }
    else
    {
      // user-defined function: add, remove a variable, change the size, change the data
      if(op == 2 && r.p.size() > 1)
      {
        // removal with the same object, or an equal one
        Piece q = r.p[i];
        if(g.coin()) q = w.pool.make(q.root, q.e0, q.ne, q.d);
        g.log("remove ", q.name);
        uf->remove(q.p);
        r.p.erase(r.p.begin() + static_cast<long>(i));
        r.A.erase(r.A.begin() + static_cast<long>(i));
      }
      else if(op == 3)
      {
        Piece q = w.eucl(g, 1);
        bool clash = !q.p->isEuclidean();
        for(auto & p : r.p) clash = clash || p.intersects(q);
        if(!clash)
        {
          g.log("add ", q.name);
          uf->add(q.p);
          r.p.push_back(q);
        }
      }
      else if(op == 4)
      {
        m = g.range(1, 5);
        g.log("resize ", m);
        uf->changeSize(m);
      }
      MatrixXd A(m, 0);
      xs.clear();
      r.A.clear();
      for(auto & p : r.p)
      {
        r.A.push_back(g.bulk(m, p.size));
        A.conservativeResize(m, A.cols() + p.size);
        A.rightCols(p.size) = r.A.back();
        xs.push_back(p.p);
      }
      r.b = g.bulkVec(m);
      uf->set(A, xs, r.b);
    }
  }
  bool sub = false;
  for(auto & p : r.p) sub = sub || p.d || p.ne < w.pool.roots[static_cast<size_t>(p.root)].n();
  if(sub && changed) g.nontrivial();
}

PROPERTY(constraints, 60000, 600000)
{
  World w;
  w.generate(g, 3, 3, g.coin(3, 4), 2, 2);
  w.setAll(g);
  std::vector<Piece> ps;
  for(auto & q : w.disjoint(g, g.range(1, 4), 1))
    if(q.p->isEuclidean()) ps.push_back(q);
  if(ps.empty()) throw pbt::Discard();
  int m = g.range(1, 4);
  Type t = g.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED});
  RHS rhs = g.pick(std::vector<RHS>{RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE});
  std::vector<VariablePtr> xs;
  std::vector<MatrixXd> A;
  std::vector<MatrixConstRef> As;
  MatrixXd D = MatrixXd::Zero(m, w.N);
  bool uninit = g.coin(1, 4);
  bool repeat = !uninit && g.coin(1, 4); // a variable is given twice
  const size_t nDistinct = ps.size();
  if(repeat)
  {
    Piece q = ps[static_cast<size_t>(g.range(0, static_cast<int>(ps.size()) - 1))];
    if(g.coin()) // part of the variable only
    {
      int e0 = g.range(0, q.ne - 1);
      q = w.pool.make(q.root, q.e0 + e0, g.range(1, q.ne - e0), q.d);
    }
    ps.push_back(q);
  }
  for(auto & q : ps)
  {
    xs.push_back(q.p);
    A.push_back(g.bulk(m, q.size));
    D.middleCols(w.start(q), q.size) += A.back();
    g.log(q.name, " ", pbt::mstr(A.back()));
  }
  for(auto & a : A) As.push_back(a);
  VectorXd v1 = g.bulkVec(m), v2 = v1 + g.bulkVec(m).cwiseAbs();
  g.log("type ", static_cast<int>(t), " rhs ", static_cast<int>(rhs), uninit ? " uninit" : "");
  using C = constraint::BasicLinearConstraint;
  std::shared_ptr<C> c;
  bool one = xs.size() == 1 && g.coin();
  if(t == Type::DOUBLE_SIDED && rhs == RHS::ZERO)
  {
    REQUIRE_THROWS(C(m, xs, t, rhs), std::runtime_error);
    REQUIRE_THROWS(C(As, xs, t), std::runtime_error);
    REQUIRE_THROWS(C(As, xs, v1, v2, rhs), std::runtime_error);
    return;
  }
  if(uninit)
  {
    c = one ? std::make_shared<C>(m, xs[0], t, rhs) : std::make_shared<C>(m, xs, t, rhs);
    for(size_t i = 0; i < xs.size(); ++i) c->A(As[i], *xs[i]);
    if(t == Type::DOUBLE_SIDED)
    {
      c->l(v1);
      c->u(v2);
    }
    else if(rhs != RHS::ZERO)
      c->b(v1);
  }
  else if(rhs == RHS::ZERO)
    c = one ? std::make_shared<C>(As[0], xs[0], t) : std::make_shared<C>(As, xs, t);
  else if(t == Type::DOUBLE_SIDED)
    c = one ? std::make_shared<C>(As[0], xs[0], v1, v2, rhs) : std::make_shared<C>(As, xs, v1, v2, rhs);
  else
    c = one ? std::make_shared<C>(As[0], xs[0], v1, t, rhs) : std::make_shared<C>(As, xs, v1, t, rhs);

  graph::CallGraph gr;
  auto inputs = std::make_shared<graph::internal::Inputs>();
  inputs->addInput(c, C::Output::Value);
  gr.add(inputs);
  gr.update();
  for(int k = g.range(1, 4); k > 0; --k)
  {
    if(g.coin())
      gr.execute();
    else
      c->updateValue();
    REQUIRE(c->type() == t && c->rhs() == rhs && c->size() == m);
    REQUIRE(c->isEquality() == (t == Type::EQUAL));
    REQUIRE_CLOSE(c->value(), D * w.all());
    REQUIRE_CLOSE(w.dense(*c), D);
    bool z = rhs == RHS::ZERO;
    bool hasL = !z && (t == Type::GREATER_THAN || t == Type::DOUBLE_SIDED), hasU = !z && (t == Type::LOWER_THAN || t == Type::DOUBLE_SIDED), hasE = !z && t == Type::EQUAL;
    REQUIRE(c->isOutputEnabled(C::Output::L) == hasL);
    REQUIRE(c->isOutputEnabled(C::Output::U) == hasU);
    REQUIRE(c->isOutputEnabled(C::Output::E) == hasE);
    if(hasL) REQUIRE_CLOSE(c->l(), v1);
    if(hasU) REQUIRE_CLOSE(c->u(), (t == Type::DOUBLE_SIDED ? v2 : v1));
    if(hasE) REQUIRE_CLOSE(c->e(), v1);
    for(int j = 0; j < 3; ++j)
    {
      Piece q = genPiece(g, w.pool, 1);
      bool in = false;
      for(auto & p : ps) in = in || p.contains(q);
      if(in)
      {
        REQUIRE_CLOSE(c->jacobian(*q.p), D.middleCols(w.start(q), q.size), q.name);
        REQUIRE(c->linearIn(*q.p));
      }
      else
        REQUIRE_THROWS(c->jacobian(*q.p), std::exception, q.name);
    }
    switch(g.range(0, 3))
    {
      case 0: w.setAll(g); break;
      case 1:
      {
        size_t i = static_cast<size_t>(g.range(0, static_cast<int>(nDistinct) - 1));
        MatrixXd a = g.bulk(m, ps[i].size);
        VariablePtr x;
        for(auto & y : c->variables())
          if(*y == *xs[i]) x = y;
        if(c->variables().numberOfVariables() == 1 && g.coin())
          c->A(a);
        else
          c->A(a, *x);
        D.middleCols(w.start(ps[i]), ps[i].size) = a;
        break;
      }
      case 2:
        v1 = g.bulkVec(m);
        v2 = v1 + g.bulkVec(m).cwiseAbs();
        if(t == Type::DOUBLE_SIDED)
        {
          c->l(v1);
          c->u(v2);
        }
        else if(!z)
          c->b(v1);
        break;
      default:
        if(t == Type::DOUBLE_SIDED || z) REQUIRE_THROWS(c->b(v2), std::runtime_error);
        if(t != Type::DOUBLE_SIDED) REQUIRE_THROWS(c->l(v2), std::runtime_error);
        if(t != Type::DOUBLE_SIDED) REQUIRE_THROWS(c->u(v2), std::runtime_error);
        REQUIRE_THROWS(c->A(MatrixXd::Ones(m + 1, ps[0].size), *ps[0].p), std::runtime_error);
        if(t == Type::DOUBLE_SIDED)
        {
          REQUIRE_THROWS(c->l(VectorXd::Ones(m + 1)), std::runtime_error);
          REQUIRE_THROWS(c->u(VectorXd::Ones(m + 1)), std::runtime_error);
          REQUIRE_THROWS(C(As, xs, v1, t), std::runtime_error);
        }
        else
        {
          REQUIRE_THROWS(c->b(VectorXd::Ones(m + 1)), std::runtime_error);
          REQUIRE_THROWS(C(As, xs, v1, t, RHS::ZERO), std::runtime_error);
          REQUIRE_THROWS(C(As, xs, VectorXd::Ones(m + 1), t), std::runtime_error);
        }
    }
  }
  g.nontrivial();
}

namespace
{
/** Function with arbitrary outputs*/
class Arbitrary : public function::abstract::Function
{
public:
  Arbitrary(Space im) : Function(im) {}
  using FirstOrderProvider::splitJacobian;
  void add(VariablePtr x, bool linear) { addVariable(x, linear); }
  void add(const VariableVector & x, bool linear) { addVariable(x, linear); }
  void remove(VariablePtr x) { removeVariable(x); }
  void set(const Variable & x, const MatrixXd & J, const MatrixXd & Jd, const MatrixProperties & p)
  {
    jacobian_.at(&x) = J;
    jacobian_.at(&x).properties(p);
    JDot_.at(&x) = Jd;
  }
};
} // namespace

PROPERTY(slices, 60000, 500000)
{
  World w;
  w.generate(g, 2, 4, false, 2, 1);
  Tri im = g.coin() ? Tri{2, 2, 2} : Tri{3, 4, 3};
  auto f = std::make_shared<Arbitrary>(im.space());
  REQUIRE(f->rSize() == im.r && f->tSize() == im.t && f->value().size() == im.r && f->velocity().size() == im.t && f->normalAcceleration().size() == im.t);
  std::vector<Piece> ps;
  for(int i = g.range(1, 4); i > 0; --i)
  {
    Piece q = genPiece(g, w.pool, 1);
    bool ok = true;
    for(auto & r : ps) ok = ok && !q.intersects(r);
    if(ok) ps.push_back(q);
  }
  std::vector<MatrixXd> J, Jd;
  std::vector<bool> lin;
  bool nonEucl = false;
  for(auto & q : ps)
  {
    bool l = g.coin();
    int t = q.p->space().tSize();
    f->add(q.p, l);
    lin.push_back(l);
    REQUIRE(f->JDot(*q.p).rows() == im.t && f->JDot(*q.p).cols() == t);
    MatrixXd a = g.bulk(im.t, t);
    MatrixProperties p{MatrixProperties::Constness(g.coin())};
    if(g.coin(1, 4))
    {
      a.setZero();
      p = {MatrixProperties::ZERO};
    }
    else if(t == im.t && g.coin())
    {
      a.setIdentity();
      p = {MatrixProperties::IDENTITY};
    }
    J.push_back(a);
    Jd.push_back(g.bulk(im.t, t));
    f->set(*q.p, a, Jd.back(), p);
    nonEucl = nonEucl || !q.p->isEuclidean();
    g.log(q.name);
  }
  bool strict = false;
  auto check = [&] {
    REQUIRE(f->variables().numberOfVariables() == static_cast<int>(ps.size()));
    for(int k = 0; k < 8; ++k)
    {
      Piece s = k < static_cast<int>(ps.size()) ? ps[static_cast<size_t>(k)] : genPiece(g, w.pool, 1);
      int in = -1;
      for(size_t i = 0; i < ps.size(); ++i)
        if(ps[i].sameSuper(s) && ps[i].e0 <= s.e0 && s.e0 + s.ne <= ps[i].e0 + ps[i].ne) in = static_cast<int>(i);
      if(in < 0)
      {
        REQUIRE_THROWS(f->jacobian(*s.p), std::exception, s.name);
        REQUIRE_THROWS(f->JDot(*s.p), std::exception, s.name);
        continue;
      }
      size_t i = static_cast<size_t>(in);
      auto & R = w.pool.roots[static_cast<size_t>(s.root)];
      int st = R.cum(s.e0).t - R.cum(ps[i].e0).t, n = R.cum(s.e0 + s.ne).t - R.cum(s.e0).t;
      strict = strict || n < J[i].cols();
      auto Js = f->jacobian(*s.p);
      REQUIRE_CLOSE(Js, J[i].middleCols(st, n), s.name);
      if(Js.properties().isZero()) REQUIRE(Js.isZero(0));
      if(Js.properties().isIdentity()) REQUIRE(Js.isIdentity(0));
      if(Js.properties().isDiagonal() && Js.rows() == Js.cols()) REQUIRE(Js.isDiagonal(0));
      MatrixXd Jds = f->JDot(*s.p);
      REQUIRE_CLOSE(Jds, Jd[i].middleCols(st, n), "JDot ", s.name);
      REQUIRE(f->linearIn(*s.p) == lin[i]);
    }
  };
  check();
  for(int k = g.range(0, 4); k > 0 && !ps.empty(); --k)
  {
    int n = static_cast<int>(ps.size());
    switch(g.weighted({4, 2, 2}))
    {
      case 0: // one matrix for a list of variables, in any order
      {
        std::vector<int> o;
        for(int i = 0; i < n; ++i) o.insert(o.begin() + g.range(0, i), i);
        o.resize(static_cast<size_t>(g.range(1, n)));
        bool keep = g.coin(1, 3);
        int c = 0;
        std::vector<VariablePtr> xs;
        for(int i : o)
        {
          auto & A = J[static_cast<size_t>(i)];
          // with the properties, the matrix has to keep what they say
          bool fixed = keep && (A.isZero(0) || A.isIdentity(0));
          if(!fixed) A = g.bulk(im.t, static_cast<int>(A.cols()));
          c += static_cast<int>(A.cols());
          xs.push_back(ps[static_cast<size_t>(i)].p);
        }
        MatrixXd all(im.t, c);
        c = 0;
        for(int i : o)
        {
          all.middleCols(c, J[static_cast<size_t>(i)].cols()) = J[static_cast<size_t>(i)];
          c += static_cast<int>(J[static_cast<size_t>(i)].cols());
        }
        g.log("split", keep ? " keeping properties" : "");
        for(auto & x : xs) g.log("  ", x->name());
        if(g.coin())
          f->splitJacobian(all, xs, keep);
        else
          f->splitJacobian(all, VariableVector(xs), keep);
        g.tag("split");
        break;
      }
      case 1: // remove
      {
        size_t i = static_cast<size_t>(g.range(0, n - 1));
        g.log("remove ", ps[i].name);
        f->remove(ps[i].p);
        VariablePtr gone = ps[i].p;
        ps.erase(ps.begin() + static_cast<long>(i));
        J.erase(J.begin() + static_cast<long>(i));
        Jd.erase(Jd.begin() + static_cast<long>(i));
        lin.erase(lin.begin() + static_cast<long>(i));
        REQUIRE_THROWS(f->jacobian(*gone), std::exception, "after removal");
        REQUIRE_THROWS(f->remove(gone), std::exception, "variable already removed");
        g.tag("removed");
        break;
      }
      default: // add again, or one more
      {
        Piece q = genPiece(g, w.pool, 1);
        bool ok = true, same = false;
        for(auto & r : ps)
        {
          ok = ok && !q.intersects(r);
          same = same || (q.sameSuper(r) && q.e0 == r.e0 && q.ne == r.ne);
        }
        if(!ok || same) break;
        g.log("add ", q.name);
        lin.push_back(g.coin());
        if(g.coin())
          f->add(q.p, lin.back());
        else
          f->add(VariableVector({q.p}), lin.back());
        ps.push_back(q);
        int t = q.p->space().tSize();
        J.push_back(g.bulk(im.t, t));
        Jd.push_back(g.bulk(im.t, t));
        f->set(*q.p, J.back(), Jd.back(), MatrixProperties());
        g.tag("added later");
      }
    }
    check();
  }
  if(strict && nonEucl) g.nontrivial();
}
