#include "vars.h"
#include <map>
#include <tvm/LinearizedControlProblem.h>
#include <tvm/Task.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/utils/AffineExpr.h>
#include <tvm/utils/ProtoTask.h>

using namespace vars;
using Eigen::MatrixXd;
using Eigen::VectorXd;

const pbt::Info pbt::info = {
    "P05",
    "expr: one of the forms of affine expressions of the catalogue, with random sizes, matrices and variables, subvariables or derivatives "
    "(which may overlap or be repeated). proto: same, put in a relation with a right-hand side, made a task. vectors: lists of matrices and "
    "variables. Non-trivial: the expression has at least two terms which share a coordinate (expr, vectors) or a non-zero right-hand side (proto). "
    "Distinctness: the sequence of choices."};

namespace
{
/** The reference for an affine expression: dense matrix over all the coordinates, and constant */
struct Ref
{
  MatrixXd J;
  VectorXd c;
  bool hasTerms = false;
  int overlap = 0; // number of shared columns
};
int N; // total number of coordinates
/** The reference for a variable*/
struct RV
{
  int start, size;
  Ref ref() const { return mul(MatrixXd::Identity(size, size)); }
  Ref mul(const MatrixXd & A) const
  {
    Ref r{MatrixXd::Zero(A.rows(), N), VectorXd::Zero(A.rows())};
    r.J.middleCols(start, size) = A;
    return r;
  }
};
Ref add(const Ref & a, const Ref & b) { return {a.J + b.J, a.c + b.c}; }
Ref operator+(const Ref & a, const Ref & b) { return add(a, b); }
Ref operator-(const Ref & a) { return {-a.J, -a.c}; }
Ref operator-(const Ref & a, const Ref & b) { return add(a, -b); }
Ref operator*(double s, const Ref & a) { return {s * a.J, s * a.c}; }
template<typename D>
Ref operator*(const Eigen::MatrixBase<D> & M, const Ref & a) { return {M * a.J, M * a.c}; }
template<typename D>
Ref operator+(const Ref & a, const Eigen::MatrixBase<D> & b) { return {a.J, a.c + b}; }
template<typename D>
Ref operator+(const Eigen::MatrixBase<D> & b, const Ref & a) { return a + b; }
template<typename D>
Ref operator-(const Ref & a, const Eigen::MatrixBase<D> & b) { return {a.J, a.c - b}; }
template<typename D>
Ref operator-(const Eigen::MatrixBase<D> & b, const Ref & a) { return b + (-a); }
Ref operator-(const RV & a) { return -a.ref(); }
Ref operator*(double s, const RV & a) { return s * a.ref(); }
template<typename D>
Ref operator*(const Eigen::MatrixBase<D> & M, const RV & a) { return a.mul(M); }
Ref operator+(const RV & a, const RV & b) { return a.ref() + b.ref(); }
Ref operator-(const RV & a, const RV & b) { return a.ref() - b.ref(); }
Ref operator+(const Ref & a, const RV & b) { return a + b.ref(); }
Ref operator+(const RV & a, const Ref & b) { return a.ref() + b; }
Ref operator-(const Ref & a, const RV & b) { return a - b.ref(); }
Ref operator-(const RV & a, const Ref & b) { return a.ref() - b; }
template<typename D>
Ref operator+(const RV & a, const Eigen::MatrixBase<D> & b) { return a.ref() + b; }
template<typename D>
Ref operator+(const Eigen::MatrixBase<D> & b, const RV & a) { return a.ref() + b; }
template<typename D>
Ref operator-(const RV & a, const Eigen::MatrixBase<D> & b) { return a.ref() - b; }
template<typename D>
Ref operator-(const Eigen::MatrixBase<D> & b, const RV & a) { return b + (-a.ref()); }

struct World
{
  Pool pool;
  std::vector<Piece> p; // x y z u v w
  std::map<std::pair<int, int>, int> off; // offset of (root, d)
  int m;
  MatrixXd A, A2, B, C, M, M2, At;
  VectorXd b, c;
  double s, t;

  int start(const Piece & q) const { return off.at({q.root, q.d}) + q.start; }
  RV rv(const Piece & q) const { return {start(q), q.size}; }

  void setAll(Gen & g)
  {
    for(auto & R : pool.roots)
      for(int d = 0; d < 2; ++d)
      {
        VariablePtr v = d ? dot(R.v) : R.v;
        v->set(g.bulkVec(v->size()));
      }
  }
  VectorXd all() const
  {
    VectorXd a(N);
    for(size_t r = 0; r < pool.roots.size(); ++r)
      for(int d = 0; d < 2; ++d)
      {
        VariablePtr v = d ? dot(pool.roots[r].v) : pool.roots[r].v;
        a.segment(off.at({static_cast<int>(r), d}), v->size()) = v->value();
      }
    return a;
  }
};

Piece euclPiece(Gen & g, Pool & pool)
{
  Piece q = genPiece(g, pool, g.coin(1, 4) ? 1 : 0);
  if(!q.p->isEuclidean()) q = pool.make(q.root, q.e0, q.ne, 1);
  return q;
}

World genWorld(Gen & g)
{
  World w;
  genRoots(g, w.pool, g.range(1, 3), 4, g.coin(4, 5), 2);
  N = 0;
  for(size_t r = 0; r < w.pool.roots.size(); ++r)
    for(int d = 0; d < 2; ++d)
    {
      w.off[{static_cast<int>(r), d}] = N;
      VariablePtr v = w.pool.roots[r].v;
      N += d ? dot(v)->size() : v->size();
    }
  for(int i = 0; i < 4; ++i) w.p.push_back(euclPiece(g, w.pool));
  w.m = w.p[3].size;
  for(int i = 4; i < 6; ++i)
  {
    Piece q = w.p[3];
    for(int k = 0; k < 6; ++k)
    {
      Piece r = euclPiece(g, w.pool);
      if(r.size == w.m)
      {
        q = r;
        break;
      }
    }
    w.p.push_back(q);
  }
  const char * names = "xyzuvw";
  for(size_t i = 0; i < 6; ++i) g.log(names[i], " = ", w.p[i].name, " [", w.start(w.p[i]), "+", w.p[i].size, ")");
  w.A = g.bulk(w.m, w.p[0].size);
  w.A2 = g.bulk(w.m, w.p[0].size);
  w.At = g.bulk(w.p[0].size, w.m);
  w.B = g.bulk(w.m, w.p[1].size);
  w.C = g.bulk(w.m, w.p[2].size);
  w.M = g.bulk(w.m, w.m);
  w.M2 = g.bulk(w.m, w.m);
  w.b = g.bulkVec(w.m);
  w.c = g.bulkVec(w.m);
  w.s = g.nonZero();
  w.t = g.nonZero();
  w.setAll(g);
  return w;
}

#define FORMS(F)                                                       \
  F(A * x)                                                             \
  F(-(A * x))                                                          \
  F(s * (A * x))                                                       \
  F(M * (A * x))                                                       \
  F(-u)                                                                \
  F(s * u)                                                             \
  F(M * u)                                                             \
  F(At.transpose() * x)                                                \
  F(2 * A * x)                                                         \
  F((A + A2) * x)                                                      \
  F((M * A) * x)                                                       \
  F(-A * x)                                                            \
  F(MatrixXd::Identity(m, m) * u)                                      \
  F(s * (t * u))                                                       \
  F(-(-u))                                                             \
  F(-(s * u))                                                          \
  F(A * x + B * y)                                                     \
  F(A * x - B * y)                                                     \
  F(A * x + A2 * x)                                                    \
  F(A * x + B * y + C * z)                                             \
  F(A * x + (B * y + C * z))                                           \
  F(A * x + b)                                                         \
  F(b + A * x)                                                         \
  F(A * x - b)                                                         \
  F(u + v)                                                             \
  F(u - v)                                                             \
  F(u + v + w)                                                         \
  F(u - v - w)                                                         \
  F(u + (v + w))                                                       \
  F(u + b)                                                             \
  F(b + u)                                                             \
  F(u - b)                                                             \
  F(b - u)                                                             \
  F(u + A * x)                                                         \
  F(A * x + u)                                                         \
  F(u - A * x)                                                         \
  F(A * x - u)                                                         \
  F(-u + v)                                                            \
  F(s * u + t * v)                                                     \
  F(s * u - t * v)                                                     \
  F(s * u + v)                                                         \
  F(u - t * v)                                                         \
  F(A * x + b + B * y)                                                 \
  F(A * x + b + B * y + c)                                             \
  F((A * x + b) + (B * y + c))                                         \
  F((A * x + b) - (B * y + c))                                         \
  F((A * x + b) - (B * y + C * z))                                     \
  F((A * x + B * y) - (C * z - c))                                     \
  F(b + (A * x + c))                                                   \
  F(b + (A * x + B * y))                                               \
  F((u - v) + b)                                                       \
  F((u + b) + v)                                                       \
  F(w + (u + b))                                                       \
  F(w - (u + b))                                                       \
  F((A * x + b) - w)                                                   \
  F(-(A * x + b))                                                      \
  F(-(u - v + b))                                                      \
  F(M * (A * x + b))                                                   \
  F(M * (A * x + B * y))                                               \
  F(s * (A * x - b))                                                   \
  F(M * (u - v))                                                       \
  F(2 * (M * (A * x + b) - (u - B * y)) + c)                           \
  F(M * (s * (A * x + u) - b) + M2 * (v - c) - w)                      \
  F(x0 + A * xs)                                                       \
  F(A * xs + x0)                                                       \
  F(x0 - A * xs + x0)                                                  \
  F(s * x0 + u + A * xs - v + b)                                       \
  F(A * x + VectorXd::Ones(m))                                         \
  F(A * x + (b + c))                                                   \
  F(A * x - 2 * b)                                                     \
  F(A * x + B * y + C * z - M * u - v + M2 * w - b + c)

// Names used in the forms. x0 is u, and xs a subvariable of it (of the same size as x if possible)
#define NAMES                                                                                            \
  [[maybe_unused]] const auto &A = w_.A, &A2 = w_.A2, &At = w_.At, &B = w_.B, &C = w_.C, &M = w_.M, &M2 = w_.M2; \
  [[maybe_unused]] const auto &b = w_.b, &c = w_.c;                                                      \
  [[maybe_unused]] const double s = w_.s, t = w_.t;                                                      \
  [[maybe_unused]] const int m = w_.m;

template<typename Wrap, typename V>
auto form(int k, const World & w_, Wrap && wrap, const V & x, const V & y, const V & z, const V & u, const V & v, const V & w)
{
  NAMES
  [[maybe_unused]] const V &x0 = u, &xs = x;
  int i = 0;
#define F(E) \
  if(i++ == k) return wrap(E);
  FORMS(F)
#undef F
  std::abort();
}
template<typename Wrap, typename V>
auto shortForm(int k, const World & w_, Wrap && wrap, const V & x, const V & y, const V &, const V & u, const V & v, const V & w)
{
  NAMES
  switch(k)
  {
    case 0: return wrap(A * x);
    case 1: return wrap(-u);
    case 2: return wrap(s * u);
    case 3: return wrap(A * x + B * y);
    case 4: return wrap(u - v);
    case 5: return wrap(A * x + B * y + b);
    case 6: return wrap(-(M * (u - b) + w));
    default: return wrap(M * (A * x - b) + c);
  }
}
const char * formNames[] = {
#define F(E) #E,
    FORMS(F)
#undef F
};
constexpr int nForms = sizeof(formNames) / sizeof(formNames[0]);
struct ToRef
{
  Ref operator()(const Ref & r) const { return r; }
};
struct ToFun
{
  template<typename E>
  std::shared_ptr<function::BasicLinearFunction> operator()(const E & e) const
  { return std::make_shared<function::BasicLinearFunction>(e); }
};

Ref refOf(int k, const World & w, bool shrt)
{
  std::vector<RV> r;
  for(auto & q : w.p) r.push_back(w.rv(q));
  if(shrt) return shortForm(k, w, ToRef{}, r[0], r[1], r[2], r[3], r[4], r[5]);
  return form(k, w, ToRef{}, r[0], r[1], r[2], r[3], r[4], r[5]);
}

/** f is the function with jacobian and constant given by r*/
void checkFunction(Gen & g, World & w, function::abstract::LinearFunction & f, const Ref & r)
{
  REQUIRE(f.size() == r.c.size());
  MatrixXd J = MatrixXd::Zero(f.size(), N);
  for(const auto & x : f.variables())
  {
    int st = -1;
    for(size_t i = 0; i < w.pool.roots.size(); ++i)
      for(int d = 0; d < 2; ++d)
      {
        VariablePtr R = w.pool.roots[i].v;
        if(d) R = dot(R);
        if(x->superVariable() == R) st = w.off.at({static_cast<int>(i), d}) + x->subvariableRange().start;
      }
    REQUIRE(st >= 0, "unexpected variable ", x->name());
    REQUIRE(f.linearIn(*x));
    auto Jx = f.jacobian(*x);
    REQUIRE(Jx.rows() == f.size() && Jx.cols() == x->size());
    J.middleCols(st, x->size()) += Jx;
    const auto & p = Jx.properties();
    REQUIRE(p.isConstant(), "jacobian should be constant");
    if(p.isIdentity()) REQUIRE(Jx.isIdentity(1e-12), pbt::mstr(Jx));
    if(p.isMinusIdentity()) REQUIRE((-Jx).isIdentity(1e-12), pbt::mstr(Jx));
    if(p.isZero()) REQUIRE(Jx.isZero(0), pbt::mstr(Jx));
    if(p.isDiagonal()) REQUIRE(Jx.isDiagonal(1e-12), pbt::mstr(Jx));
    if(p.isMultipleOfIdentity()) REQUIRE((Jx - Jx(0, 0) * MatrixXd::Identity(Jx.rows(), Jx.cols())).isZero(1e-12), pbt::mstr(Jx));
  }
  REQUIRE_CLOSE(J, r.J);
  REQUIRE_CLOSE(f.b(), r.c);
  if(f.b().properties().isZero()) REQUIRE(r.c.isZero(0));
  // The jacobian with respect to any piece of a variable
  for(int k = 0; k < 4; ++k)
  {
    Piece q = euclPiece(g, w.pool);
    if(f.variables().contains(*q.p))
      REQUIRE_CLOSE(f.jacobian(*q.p), r.J.middleCols(w.start(q), q.size), "wrt ", q.name);
  }
  for(int k = 0; k < 2; ++k)
  {
    f.updateValue();
    REQUIRE_CLOSE(f.value(), r.J * w.all() + r.c);
    w.setAll(g);
  }
}

bool overlapping(const World & w)
{
  for(size_t i = 0; i < w.p.size(); ++i)
    for(size_t j = 0; j < i; ++j)
      if(w.p[i].intersects(w.p[j])) return true;
  return false;
}
} // namespace

PROPERTY(expr, 100000, 1000000)
{
  World w = genWorld(g);
  int k = g.range(0, nForms - 1);
  g.log(formNames[k]);
  Ref r = refOf(k, w, false);
  auto f = form(k, w, ToFun{}, w.p[0].p, w.p[1].p, w.p[2].p, w.p[3].p, w.p[4].p, w.p[5].p);
  checkFunction(g, w, *f, r);
  if(k >= 16 && overlapping(w)) g.nontrivial();
}

namespace
{
struct Rel
{
  constraint::Type type;
  VectorXd l, u;
};

/** Sets of points described by a task (through its linearized constraint) and by the relation are the same */
void checkTask(Gen & g, World & w, const Task & task, const Ref & r, const Rel & rel)
{
  REQUIRE(task.type() == rel.type, "type");
  LinearizedControlProblem pb;
  auto tr = pb.add(task, {requirements::PriorityLevel(0)});
  auto c = pb.constraint(*tr);
  pb.update();
  REQUIRE(c->type() == rel.type);
  auto dense = [&](auto && cc) {
    MatrixXd J = MatrixXd::Zero(cc.size(), N);
    for(const auto & x : cc.variables())
      for(size_t i = 0; i < w.pool.roots.size(); ++i)
        for(int d = 0; d < 2; ++d)
        {
          VariablePtr R = w.pool.roots[i].v;
          if(d) R = dot(R);
          if(x->superVariable() == R) J.middleCols(w.off.at({static_cast<int>(i), d}) + x->subvariableRange().start, x->size()) += cc.jacobian(*x);
        }
    return J;
  };
  REQUIRE_CLOSE(dense(*c), r.J);
  REQUIRE(c->rhs() == constraint::RHS::AS_GIVEN);
  switch(rel.type)
  {
    case constraint::Type::EQUAL:
      REQUIRE_CLOSE(c->e(), rel.l - r.c);
      break;
    case constraint::Type::GREATER_THAN:
      REQUIRE_CLOSE(c->l(), rel.l - r.c);
      break;
    case constraint::Type::LOWER_THAN:
      REQUIRE_CLOSE(c->u(), rel.u - r.c);
      break;
    default:
      REQUIRE_CLOSE(c->l(), rel.l - r.c);
      REQUIRE_CLOSE(c->u(), rel.u - r.c);
  }
}

struct Rhs
{
  int kind; // 0: 0, 1: double, 2: vector, 3: vector expression
  double d;
  VectorXd v;
};
Rhs genRhs(Gen & g, int m)
{
  Rhs r;
  r.kind = g.range(0, 3);
  r.d = r.kind == 0 ? 0 : g.nonZero();
  r.v = r.kind >= 2 ? g.bulkVec(m) : VectorXd::Constant(m, r.d);
  return r;
}

/** Make a task from an expression (or a variable, or a function), and a relation*/
struct ToTask
{
  int op;
  const Rhs &r1, &r2;
  mutable Rel rel;

  template<typename E>
  Task operator()(const E & e) const
  {
    if(r1.kind == 1) return rhs1(e, r1.d);
    if(r1.kind == 0) return rhs1(e, 0.);
    return rhs1(e, r1.v);
  }
  template<typename E, typename R>
  Task rhs1(const E & e, const R & a) const
  {
    task_dynamics::None td;
    using T = constraint::Type;
    switch(op)
    {
      case 0: rel = {T::EQUAL, r1.v, r1.v}; return Task(e == a, td);
      case 1: rel = {T::EQUAL, r1.v, r1.v}; return Task(a == e, td);
      case 2: rel = {T::GREATER_THAN, r1.v, {}}; return Task(e >= a, td);
      case 3: rel = {T::LOWER_THAN, {}, r1.v}; return Task(a >= e, td);
      case 4: rel = {T::LOWER_THAN, {}, r1.v}; return Task(e <= a, td);
      case 5: rel = {T::GREATER_THAN, r1.v, {}}; return Task(a <= e, td);
      case 6:
        rel = {T::DOUBLE_SIDED, r1.v, r2.v};
        if(r2.kind <= 1) return Task(a <= e <= r2.d, td);
        return Task(a <= e <= r2.v, td);
      case 7:
        rel = {T::DOUBLE_SIDED, r2.v, r1.v};
        if(r2.kind <= 1) return Task(a >= e >= r2.d, td);
        return Task(a >= e >= r2.v, td);
      case 8: // the constructor with function, type and right-hand side(s)
        return Task(a == e, td);
    }
    std::abort();
  }
};
} // namespace

PROPERTY(proto, 60000, 500000)
{
  World w = genWorld(g);
  int what = g.range(0, 4), op = g.range(0, 7), k = g.range(0, 7);
  Rhs r1 = genRhs(g, w.m), r2 = genRhs(g, w.m);
  if(op == 6 || op == 7) // the lower bound has to be below
  {
    VectorXd lo = r1.v.cwiseMin(r2.v), up = r1.v.cwiseMax(r2.v);
    if(r1.kind >= 2 || r2.kind >= 2)
      r1.kind = r2.kind = 2;
    else
    {
      double a = std::min(r1.d, r2.d), b = std::max(r1.d, r2.d);
      r1.d = op == 6 ? a : b;
      r2.d = op == 6 ? b : a;
      r1.kind = r2.kind = 1;
    }
    r1.v = op == 6 ? lo : up;
    r2.v = op == 6 ? up : lo;
  }
  g.log("what ", what, " form ", k, " op ", op, " rhs ", r1.kind, " ", r1.v.transpose(), " / ", r2.kind, " ", r2.v.transpose());
  ToTask tt{op, r1, r2, {}};
  if(what == 0) // variable
  {
    Task t = tt(w.p[3].p);
    checkTask(g, w, t, w.rv(w.p[3]).ref(), tt.rel);
  }
  else if(what <= 2)
  {
    Ref r = refOf(k, w, true);
    Task t = shortForm(k, w, tt, w.p[0].p, w.p[1].p, w.p[2].p, w.p[3].p, w.p[4].p, w.p[5].p);
    checkTask(g, w, t, r, tt.rel);
  }
  else
  {
    int kk = g.range(0, nForms - 1);
    Ref r = refOf(kk, w, false);
    auto f = form(kk, w, ToFun{}, w.p[0].p, w.p[1].p, w.p[2].p, w.p[3].p, w.p[4].p, w.p[5].p);
    if(what == 3)
    {
      Task t = g.coin() ? tt(f) : g.coin() ? tt(LinearFunctionPtr(f)) : tt(FunctionPtr(f));
      checkTask(g, w, t, r, tt.rel);
    }
    else
    {
      task_dynamics::None td;
      using T = constraint::Type;
      VectorXd z = VectorXd::Zero(w.m);
      switch(op)
      {
        case 0: case 1: checkTask(g, w, Task(f, T::EQUAL, td), r, {T::EQUAL, z, z}); break;
        case 2: checkTask(g, w, Task(f, T::GREATER_THAN, td, 2.5), r, {T::GREATER_THAN, VectorXd::Constant(w.m, 2.5), {}}); break;
        case 3: checkTask(g, w, Task(f, T::LOWER_THAN, td, r1.v), r, {T::LOWER_THAN, {}, r1.v}); break;
        case 4: checkTask(g, w, Task(f, T::DOUBLE_SIDED, td, -1., 3.), r, {T::DOUBLE_SIDED, VectorXd::Constant(w.m, -1.), VectorXd::Constant(w.m, 3.)}); break;
        case 5: checkTask(g, w, Task(f, T::DOUBLE_SIDED, td, w.b, w.b + VectorXd::Ones(w.m)), r, {T::DOUBLE_SIDED, w.b, w.b + VectorXd::Ones(w.m)}); break;
        case 6: REQUIRE_THROWS(Task(f, T::DOUBLE_SIDED, td), std::exception); REQUIRE_THROWS(Task(f, T::DOUBLE_SIDED, td, 1.), std::exception); break;
        default: REQUIRE_THROWS(Task(f, T::EQUAL, td, 1., 2.), std::exception);
      }
    }
  }
  if(r1.kind) g.nontrivial();
}

PROPERTY(refused, 5000, 20000)
{
  World w = genWorld(g);
  auto f = form(0, w, ToFun{}, w.p[0].p, w.p[1].p, w.p[2].p, w.p[3].p, w.p[4].p, w.p[5].p);
  VectorXd bad = g.bulkVec(w.m + 1), ok = g.bulkVec(w.m);
  switch(g.range(0, 9))
  {
    case 0: REQUIRE_THROWS((void)(f == bad), std::runtime_error); break;
    case 1: REQUIRE_THROWS((void)(f >= bad), std::runtime_error); break;
    case 2: REQUIRE_THROWS((void)(bad >= f), std::runtime_error); break;
    case 3: REQUIRE_THROWS((void)(bad <= f <= ok), std::runtime_error); break;
    case 4: REQUIRE_THROWS((void)(ok <= f <= bad), std::runtime_error); break;
    case 5: REQUIRE_THROWS((void)(0. >= f >= bad), std::runtime_error); break;
    case 6: REQUIRE_THROWS((void)(w.p[0].p == VectorXd::Ones(w.p[0].size + 2).eval()), std::runtime_error); break;
    case 7:
    {
      VariablePtr q = Space(Space::Type::SO3).createVariable("q");
      REQUIRE_THROWS((void)(MatrixXd::Ones(2, 4) * q == 0.), std::runtime_error);
      break;
    }
    case 8:
    {
      std::vector<MatrixConstRef> As{w.A, w.B};
      REQUIRE_THROWS(function::BasicLinearFunction(As, std::vector<VariablePtr>{w.p[0].p}), std::runtime_error);
      break;
    }
    default:
    {
      MatrixXd W = MatrixXd::Ones(w.m, w.p[0].size + 1), W2 = MatrixXd::Ones(w.m + 1, w.p[0].size);
      REQUIRE_THROWS(function::BasicLinearFunction(W, w.p[0].p), std::runtime_error);
      REQUIRE_THROWS(function::BasicLinearFunction(w.A, w.p[0].p, bad), std::runtime_error);
    }
  }
  g.nontrivial();
}

PROPERTY(vectors, 60000, 500000)
{
  World w = genWorld(g);
  int n = g.range(1, 4);
  std::vector<MatrixXd> As;
  std::vector<VariablePtr> xs;
  Ref r{MatrixXd::Zero(w.m, N), VectorXd::Zero(w.m)};
  bool rejected = false, overlap = false;
  std::vector<Piece> kept;
  for(int i = 0; i < n; ++i)
  {
    Piece q = euclPiece(g, w.pool);
    bool in = false, cut = false;
    for(auto & k : kept)
    {
      if(k.contains(q)) in = true;
      else if(k.intersects(q)) cut = true;
    }
    if(cut && !in) rejected = true;
    if(in) overlap = true;
    if(!in && !cut) kept.push_back(q);
    As.push_back(g.bulk(w.m, q.size));
    xs.push_back(q.p);
    g.log(q.name, " ", pbt::mstr(As.back()));
    r = r + w.rv(q).mul(As.back());
  }
  std::vector<MatrixConstRef> Ar(As.begin(), As.end());
  bool withB = g.coin();
  if(rejected)
  {
    // A variable which is only partly among the previous ones can't be handled: this has to be said.
    REQUIRE_THROWS(function::BasicLinearFunction(Ar, xs), std::runtime_error);
    return;
  }
  if(withB) r.c = w.b;
  auto f = withB ? std::make_shared<function::BasicLinearFunction>(Ar, xs, w.b) : std::make_shared<function::BasicLinearFunction>(Ar, xs);
  checkFunction(g, w, *f, r);
  if(overlap) g.nontrivial();
  // changing the matrix of a variable
  if(!overlap)
  {
    size_t i = static_cast<size_t>(g.range(0, n - 1));
    MatrixXd A = g.bulk(w.m, xs[i]->size());
    r.J.middleCols(w.start(kept[i]), kept[i].size) = A;
    f->A(A, *xs[i], tvm::internal::MatrixProperties::Constness(true));
    VectorXd b = g.bulkVec(w.m);
    f->b(b);
    r.c = b;
    checkFunction(g, w, *f, r);
  }
}
