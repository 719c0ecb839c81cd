#include "world.h"
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/defs.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/Substitutions.h>
#include <tvm/requirements/SolvingRequirements.h>
#include <tvm/scheme/internal/Assignment.h>
#include <tvm/scheme/internal/AssignmentTarget.h>
#include <tvm/scheme/internal/helpers.h>
#include <tvm/utils/memoryChecks.h>

using namespace vars;
using constraint::BasicLinearConstraint;
using constraint::RHS;
using constraint::Type;
using tvm::internal::MatrixProperties;
using tvm::scheme::internal::Assignment;
using tvm::scheme::internal::AssignmentTarget;

const pbt::Info pbt::info = {
    "P12",
    "general: a linear constraint of any type and right-hand side convention on 1 to 3 disjoint (sub)variables, with or without substitution of some of them, assigned to a target of any "
    "compatible or incompatible form with none, scalar, anisotropic and scalarization weights, then up to 6 changes among data, weights, target storage and rows, variables layout, "
    "move of the assignment. bounds: 1 to 4 single-variable constraints with identity, opposite, scaled or diagonal jacobian intersected on a bound target, followed by changes. "
    "conventions: which constraints are bounds, and for which target, when their variable is substituted, contains or is part of a substituted variable. "
    "Non-trivial: at least one change was followed by a run and a sign flip, a weight, a substitution or a several-constraint bound is involved. Distinctness: the sequence of choices."};

namespace
{
const double inf = std::numeric_limits<double>::infinity();

const char * name(Type t)
{
  switch(t)
  {
    case Type::EQUAL: return "=";
    case Type::GREATER_THAN: return ">=";
    case Type::LOWER_THAN: return "<=";
    default: return "<<";
  }
}
const char * name(RHS r) { return r == RHS::ZERO ? "0" : (r == RHS::AS_GIVEN ? "+b" : "-b"); }

Type genType(Gen & g) { return g.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED}); }
RHS genRHS(Gen & g) { return g.pick(std::vector<RHS>{RHS::AS_GIVEN, RHS::OPPOSITE, RHS::ZERO}); }

/** A structured jacobian and the way to change its values while keeping the structure.*/
struct Block
{
  int kind; // 0 generic, 1 identity, 2 -identity, 3 multiple of identity, 4 diagonal invertible, 5 zero
  MatrixXd M;
  int declared = 0; // declared sign, for kinds 3 and 4
  MatrixProperties props() const
  {
    if(declared && kind >= 3)
      return MatrixProperties(kind == 3 ? MatrixProperties::MULTIPLE_OF_IDENTITY : MatrixProperties::DIAGONAL, MatrixProperties::Invertibility(true),
                              declared > 0 ? MatrixProperties::POSITIVE_DEFINITE : MatrixProperties::NEGATIVE_DEFINITE);
    switch(kind)
    {
      case 1: return MatrixProperties(MatrixProperties::IDENTITY);
      case 2: return MatrixProperties(MatrixProperties::MINUS_IDENTITY);
      case 3: return MatrixProperties(MatrixProperties::MULTIPLE_OF_IDENTITY, MatrixProperties::Invertibility(true));
      case 4: return MatrixProperties(MatrixProperties::DIAGONAL, MatrixProperties::Invertibility(true));
      case 5: return MatrixProperties(MatrixProperties::ZERO);
      default: return MatrixProperties();
    }
  }
  void change(Gen & g, int m, int n, int sign = 0)
  {
    auto nz = [&] {
      double d = g.nonZero(3);
      return sign ? sign * std::abs(d) : d;
    };
    switch(kind)
    {
      case 1: M = MatrixXd::Identity(m, n); break;
      case 2: M = -MatrixXd::Identity(m, n); break;
      case 3: M = nz() * MatrixXd::Identity(m, n); break;
      case 4:
      {
        M = MatrixXd::Zero(m, n);
        for(int i = 0; i < m; ++i) M(i, i) = nz();
        break;
      }
      case 5: M = MatrixXd::Zero(m, n); break;
      default: M = g.bulk(m, n);
    }
  }
  static Block gen(Gen & g, int m, int n)
  {
    Block b;
    b.kind = m == n ? g.weighted({3, 3, 3, 1, 1, 1}) : 0;
    b.change(g, m, n);
    return b;
  }
};

struct Source
{
  Type type;
  RHS rhs;
  std::vector<Piece> p;
  std::vector<Block> A;
  VectorXd l, u; // l is used for everything but LOWER_THAN
  std::shared_ptr<BasicLinearConstraint> c;
  int m() const { return static_cast<int>(A[0].M.rows()); }
  double s() const { return rhs == RHS::AS_GIVEN ? 1 : rhs == RHS::OPPOSITE ? -1 : 0; }
  void genRhs(Gen & g, int n)
  {
    l = VectorXd::Zero(n);
    u = VectorXd::Zero(n);
    if(rhs == RHS::ZERO) return;
    l = g.vec(n, 3);
    u = g.vec(n, 3);
    if(type == Type::DOUBLE_SIDED)
    {
      u = l + u.cwiseAbs();
      if(rhs == RHS::OPPOSITE) l.swap(u);
    }
    else if(type == Type::EQUAL)
      u = l;
  }
  void push()
  {
    for(size_t i = 0; i < p.size(); ++i) c->A(A[i].M, *p[i].p, A[i].props());
    pushRhs();
  }
  void pushRhs()
  {
    if(rhs == RHS::ZERO) return;
    if(type == Type::DOUBLE_SIDED)
    {
      c->l(l);
      c->u(u);
    }
    else
      c->b(type == Type::LOWER_THAN ? u : l);
  }
  void build()
  {
    std::vector<VariablePtr> x;
    for(auto & q : p) x.push_back(q.p);
    c = std::make_shared<BasicLinearConstraint>(m(), x, type, rhs);
    push();
  }
  /** lower and upper bounds of the rows*/
  VectorXd lo() const
  {
    if(type == Type::LOWER_THAN) return VectorXd::Constant(m(), -inf);
    return s() * l;
  }
  VectorXd up() const
  {
    if(type == Type::GREATER_THAN) return VectorXd::Constant(m(), inf);
    if(type == Type::EQUAL) return s() * l;
    return s() * u;
  }
};

/** A coordinate of a variable*/
using Key = std::pair<const Variable *, int>;
Key key(const Variable & v, int i) { return {v.superVariable().get(), v.subvariableRange().start + i}; }

/** Target storage.*/
struct Target
{
  Type type;
  RHS rhs;
  MatrixXd A;
  VectorXd l, u, b;
  RangePtr range;
  double t() const { return rhs == RHS::AS_GIVEN ? 1 : rhs == RHS::OPPOSITE ? -1 : 0; }
  void alloc(Gen & g, int rows, int cols)
  {
    int before = g.range(0, 3), after = g.range(0, 2);
    if(range)
      *range = Range(before, rows);
    else
      range = std::make_shared<Range>(before, rows);
    A = MatrixXd::Constant(before + rows + after, cols, 1234.5);
    A.middleRows(before, rows).setZero();
    l = u = b = VectorXd::Constant(before + rows + after, 5432.1);
  }
  AssignmentTarget make()
  {
    if(type == Type::DOUBLE_SIDED) return {range, A, l, u, rhs};
    if(rhs == RHS::ZERO) return {range, MatrixRef(A), type};
    return {range, A, b, type, rhs};
  }
  void checkOutside() const
  {
    for(int i = 0; i < A.rows(); ++i)
    {
      if(i >= range->start && i < range->end()) continue;
      REQUIRE((A.row(i).array() == 1234.5).all(), "row ", i, " of A is not part of the target and was written");
      REQUIRE(l[i] == 5432.1 && u[i] == 5432.1 && b[i] == 5432.1, "row ", i, " of the vectors is not part of the target and was written");
    }
    if(type == Type::DOUBLE_SIDED)
      REQUIRE((b.array() == 5432.1).all(), "b was written");
    else
    {
      REQUIRE((l.array() == 5432.1).all(), "l was written");
      REQUIRE((u.array() == 5432.1).all(), "u was written");
      if(rhs == RHS::ZERO) REQUIRE((b.array() == 5432.1).all(), "b was written");
    }
  }
};

double scaled(double w, double v) { return std::isinf(v) ? v : w * v; }
bool same(double a, double b)
{
  if(a >= 1e-3 * constant::big_number) a = inf;
  if(a <= -1e-3 * constant::big_number) a = -inf;
  if(std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b));
}
/** lo <= c.x <= up is the same as elo <= e.x <= eup*/
bool sameRow(const VectorXd & c, double lo, double up, const VectorXd & e, double elo, double eup)
{
  if(pbt::close(c, e) && same(lo, elo) && same(up, eup)) return true;
  return pbt::close(c, (-e).eval()) && same(lo, -eup) && same(up, -elo);
}
std::string rowStr(const VectorXd & c, double lo, double up) { return pbt::mstr(c.transpose()) + " in [" + std::to_string(lo) + ", " + std::to_string(up) + "]"; }

struct Sub
{
  std::vector<Piece> y;
  std::vector<Block> Y;
  Piece x;
  Block X;
  VectorXd b;
  std::shared_ptr<BasicLinearConstraint> c;
  void push()
  {
    c->A(X.M, *x.p, X.props());
    for(size_t i = 0; i < y.size(); ++i) c->A(Y[i].M, *y[i].p, Y[i].props());
    c->b(b);
  }
};
} // namespace

PROPERTY(general, 150000, 1500000)
{
  World w;
  w.generate(g, 3, 3, true, 2, 0);
  Source s;
  s.type = genType(g);
  s.rhs = genRHS(g);
  if(s.type == Type::DOUBLE_SIDED && s.rhs == RHS::ZERO) s.rhs = RHS::AS_GIVEN;
  s.p = w.disjoint(g, g.range(1, 3), 0);

  // substitutions
  std::vector<Sub> subsD;
  hint::internal::Substitutions subs;
  int nSub = g.weighted({3, 2, 1});
  for(int k = 0; k < nSub; ++k)
  {
    Sub d;
    if(k == 0 && g.coin(2, 3))
      d.x = g.coin() ? s.p[0] : s.p.back();
    else
      d.x = w.eucl(g, 0);
    bool ok = true;
    for(auto & o : subsD)
    {
      ok = ok && !o.x.intersects(d.x);
      for(auto & q : o.y) ok = ok && !q.intersects(d.x);
    }
    if(!ok) continue;
    int m = g.coin(3, 4) ? d.x.size : g.range(1, d.x.size);
    d.X = Block::gen(g, m, d.x.size);
    if(d.X.kind == 5) d.X.kind = 0;
    if(d.X.kind == 0) // well-conditioned
    {
      d.X.M = .2 * g.bulk(m, d.x.size);
      for(int i = 0; i < m; ++i) d.X.M(i, i) += 1.5;
    }
    for(auto & q : w.disjoint(g, g.range(0, 2), 0))
    {
      bool add = !q.intersects(d.x);
      for(auto & o : subsD) add = add && (!q.intersects(o.x) || q.equals(o.x));
      if(!add) continue;
      d.y.push_back(q);
      d.Y.push_back(Block::gen(g, m, q.size));
    }
    d.b = g.coin(2, 3) ? g.bulkVec(m) : VectorXd::Zero(m);
    std::vector<VariablePtr> v{d.x.p};
    for(auto & q : d.y) v.push_back(q.p);
    d.c = std::make_shared<BasicLinearConstraint>(m, v, Type::EQUAL, g.coin() ? RHS::AS_GIVEN : RHS::OPPOSITE);
    d.push();
    subsD.push_back(d);
    g.logs("substitution of ", d.x.name, " (", m, " rows, kind ", d.X.kind, ") with");
    for(auto & q : d.y) g.logs(" ", q.name);
    g.log("");
  }
  for(auto & d : subsD) subs.add(hint::Substitution(d.c, d.x.p));
  bool hasSub = !subsD.empty();
  // only part of a variable that is substituted as a whole
  bool tooFine = false;
  for(auto & d : subsD)
    for(auto & q : s.p) tooFine = tooFine || (q.intersects(d.x) && !q.contains(d.x));
  if(hasSub)
  {
    subs.finalize();
    subs.updateSubstitutions();
  }

  int m = g.coin() ? s.p[0].size : g.range(1, 4);
  for(auto & q : s.p) s.A.push_back(Block::gen(g, m, q.size));
  s.genRhs(g, m);
  s.build();
  g.logs("source ", name(s.type), " ", name(s.rhs), ", ", m, " rows, variables");
  for(size_t i = 0; i < s.p.size(); ++i) g.logs(" ", s.p[i].name, " (kind ", s.A[i].kind, ")");
  g.log("");

  // layout of the problem's variables: everything but what is substituted
  std::vector<VariablePtr> pieces;
  for(size_t r = 0; r < w.pool.roots.size(); ++r)
  {
    int n = w.pool.roots[r].n(), e = 0;
    std::vector<bool> gone(static_cast<size_t>(n), false);
    for(auto & d : subsD)
      if(d.x.root == static_cast<int>(r))
        for(int k = d.x.e0; k < d.x.e0 + d.x.ne; ++k) gone[static_cast<size_t>(k)] = true;
    while(e < n)
    {
      if(gone[static_cast<size_t>(e)])
      {
        ++e;
        continue;
      }
      int f = e;
      while(f < n && !gone[static_cast<size_t>(f)]) ++f;
      pieces.push_back(w.pool.make(static_cast<int>(r), e, f - e, 0).p);
      e = f;
    }
  }
  for(auto & z : subs.additionalVariables()) pieces.push_back(z);
  std::vector<VariablePtr> decoys;
  auto layout = [&] {
    std::vector<VariablePtr> v = pieces;
    for(auto & d : decoys) v.push_back(d);
    for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[static_cast<size_t>(g.range(0, static_cast<int>(i) - 1))]);
    g.logs("layout:");
    for(auto & x : v) g.logs(" ", x->name());
    g.log("");
    return VariableVector(v);
  };
  if(g.coin()) decoys.push_back(Space(g.range(1, 2)).createVariable("decoy"));
  VariableVector vars = layout();

  // the target
  Target t;
  t.type = genType(g);
  if(g.coin(3, 4))
  {
    if(s.type == Type::EQUAL && (t.type == Type::GREATER_THAN || t.type == Type::LOWER_THAN)) t.type = Type::EQUAL;
    if(s.type != Type::EQUAL && t.type == Type::EQUAL) t.type = Type::GREATER_THAN;
  }
  t.rhs = genRHS(g);
  if(t.type == Type::DOUBLE_SIDED && t.rhs == RHS::ZERO) t.rhs = RHS::AS_GIVEN;
  bool split = s.type == Type::DOUBLE_SIDED && t.type != Type::DOUBLE_SIDED;
  bool compatible = (s.type == Type::EQUAL) ? (t.type == Type::EQUAL || t.type == Type::DOUBLE_SIDED) : t.type != Type::EQUAL;
  if(t.rhs == RHS::ZERO)
  {
    if(s.rhs != RHS::ZERO && g.coin(3, 4)) t.rhs = RHS::AS_GIVEN;
  }
  int rows = split ? 2 * m : m;
  bool wrongSize = g.coin(1, 20);
  t.alloc(g, wrongSize ? (g.coin() ? rows + 1 : (split ? m : 2 * m)) : rows, vars.totalSize());
  g.log("target ", name(t.type), " ", name(t.rhs), " rows ", t.range->start, "+", t.range->dim, " of ", t.A.rows());

  // the requirements
  using namespace requirements;
  std::shared_ptr<SolvingRequirementsWithCallbacks> req;
  double weight = 1, scal = 1;
  VectorXd aniso = VectorXd::Ones(m);
  bool defW = true, defA = true;
  int viol = 1;
  if(g.coin(3, 4))
  {
    SolvingRequirements r;
    viol = g.weighted({1, 20, 1});
    if(viol != 1) r.violationEvaluation() = ViolationEvaluation(viol == 0 ? ViolationEvaluationType::L1 : ViolationEvaluationType::LINF);
    if(g.coin())
    {
      weight = g.positive(4);
      r.weight() = Weight(weight);
      defW = false;
    }
    if(g.coin())
    {
      aniso = g.posVec(m, 4);
      r.anisotropicWeight() = AnisotropicWeight(aniso);
      defA = false;
    }
    req = std::make_shared<SolvingRequirementsWithCallbacks>(r);
    if(g.coin(1, 3)) scal = g.pick(std::vector<double>{10, 100, .5, 1});
  }
  bool defS = defW && scal == 1, setW = false, setA = false;
  g.log("weight ", defW ? "default" : "", weight, " scalarization ", scal, " anisotropic ", defA ? "default" : "", aniso.transpose(), req ? "" : " no requirements");

  bool nzSub = false;
  for(auto & f : subs.variableSubstitutions()) nzSub = nzSub || !(f->b().properties().isZero() && f->b().properties().isConstant());
  bool zeroRefused = t.rhs == RHS::ZERO && (s.rhs != RHS::ZERO || nzSub);
  AssignmentTarget at = t.make();
  bool wrongAniso = req && g.coin(1, 30);
  if(wrongAniso)
  {
    req->anisotropicWeight() = g.posVec(m > 1 && g.coin() ? g.range(1, m - 1) : m + g.range(1, 2), 4);
    g.log("anisotropic weight of size ", req->anisotropicWeight().value().size());
  }
  auto make = [&] { return std::make_unique<Assignment>(s.c, req, at, vars, hasSub ? &subs : nullptr, scal); };
  if(!compatible || zeroRefused || t.range->dim != rows || viol != 1)
  {
    g.tag("refused");
    REQUIRE_THROWS(make(), std::runtime_error, "incompatible source and target");
    return;
  }
  if(tooFine)
  {
    g.tag("partial substitution refused");
    REQUIRE_THROWS(make(), std::exception, "constraint on a part of a substituted variable");
    return;
  }
  if(wrongAniso)
  {
    g.tag("size of the weight refused");
    REQUIRE_THROWS(make(), std::runtime_error, "anisotropic weight of wrong size");
    return;
  }
  auto a = make();
  REQUIRE(a->changeScalarWeightIsAllowed() == !defS && a->changeVectorWeightIsAllowed() == !defA);

  auto check = [&] {
    // columns
    std::map<Key, int> col;
    int N = 0;
    for(auto & v : vars)
      for(int i = 0; i < v->size(); ++i) col[key(*v, i)] = N++;
    // substitutions
    std::map<Key, std::pair<VectorXd, double>> sub;
    for(size_t k = 0; k < subs.variables().size(); ++k)
    {
      auto & f = *subs.variableSubstitutions()[k];
      MatrixXd D = MatrixXd::Zero(f.size(), N);
      for(auto & y : f.variables())
      {
        MatrixXd J = f.jacobian(*y);
        for(int i = 0; i < y->size(); ++i)
        {
          REQUIRE(col.count(key(*y, i)), "substituted by a variable that is not in the problem");
          D.col(col.at(key(*y, i))) += J.col(i);
        }
      }
      for(int i = 0; i < f.size(); ++i) sub[key(*subs.variables()[k], i)] = {D.row(i), f.b()[i]};
    }
    MatrixXd E = MatrixXd::Zero(m, N);
    VectorXd shift = VectorXd::Zero(m);
    for(size_t k = 0; k < s.p.size(); ++k)
      for(int i = 0; i < s.p[k].size; ++i)
      {
        auto q = key(*s.p[k].p, i);
        auto it = sub.find(q);
        if(it == sub.end())
          E.col(col.at(q)) += s.A[k].M.col(i);
        else
        {
          E += s.A[k].M.col(i) * it->second.first.transpose();
          shift += s.A[k].M.col(i) * it->second.second;
        }
      }
    VectorXd wr = std::sqrt(weight) * scal * aniso.cwiseSqrt();
    VectorXd lo = s.lo() - shift, up = s.up() - shift;
    t.checkOutside();
    for(int i = 0; i < m; ++i)
    {
      VectorXd e = wr[i] * E.row(i).transpose();
      double elo = scaled(wr[i], lo[i]), eup = scaled(wr[i], up[i]);
      auto row = [&](int k, double & rlo, double & rup) {
        int r = t.range->start + k;
        double d = t.t() ? t.t() * t.b[r] : 0;
        switch(t.type)
        {
          case Type::EQUAL: rlo = rup = d; break;
          case Type::GREATER_THAN:
            rlo = d;
            rup = inf;
            break;
          case Type::LOWER_THAN:
            rlo = -inf;
            rup = d;
            break;
          default:
            rlo = t.t() * t.l[r];
            rup = t.t() * t.u[r];
        }
        return VectorXd(t.A.row(r));
      };
      double rlo, rup;
      VectorXd c = row(i, rlo, rup);
      if(!split)
        REQUIRE(sameRow(c, rlo, rup, e, elo, eup), "row ", i, " is ", rowStr(c, rlo, rup), " instead of ", rowStr(e, elo, eup));
      else
      {
        double qlo, qup;
        VectorXd d = row(i + m, qlo, qup);
        bool ok = (sameRow(c, rlo, rup, e, elo, inf) && sameRow(d, qlo, qup, e, -inf, eup)) || (sameRow(d, qlo, qup, e, elo, inf) && sameRow(c, rlo, rup, e, -inf, eup));
        REQUIRE(ok, "rows ", i, " and ", i + m, " are ", rowStr(c, rlo, rup), " and ", rowStr(d, qlo, qup), " instead of the sides of ", rowStr(e, elo, eup));
      }
    }
  };

  a->run();
  check();
  bool changed = false;
  for(int k = g.range(0, 6); k > 0; --k)
  {
    int op = g.range(0, 8);
    changed = true;
    switch(op)
    {
      case 0:
        g.log("change the matrices");
        for(size_t i = 0; i < s.p.size(); ++i) s.A[i].change(g, m, s.p[i].size);
        s.push();
        break;
      case 1:
        g.log("change the vectors");
        s.genRhs(g, m);
        s.pushRhs();
        break;
      case 2:
      {
        if(!req) break;
        bool both = g.coin(1, 3);
        int what = both ? 3 : g.range(1, 2);
        double w2 = (what & 1) ? g.positive(4) : weight;
        VectorXd a2 = (what & 2) ? g.posVec(m, 4) : aniso;
        g.log("weights ", w2, " ", a2.transpose(), " flags ", what);
        setW = setW || (what & 1);
        setA = setA || (what & 2);
        if(what & 1) req->weight() = w2;
        if(what & 2) req->anisotropicWeight() = a2;
        if((what & 2) && g.coin(1, 10))
        {
          // a weight of wrong size is refused, the next one can be right
          req->anisotropicWeight() = g.posVec(m + g.range(1, 2), 4);
          g.tag("size of the new weight refused");
          REQUIRE_THROWS(a->onUpdateWeights(what & 1, true), std::runtime_error, "anisotropic weight of wrong size");
          req->anisotropicWeight() = a2;
        }
        bool refused = ((what & 1) && defS && w2 != 1) || ((what & 2) && defA && !a2.isConstant(1));
        if(refused)
        {
          g.tag("weight refused");
          REQUIRE_THROWS(a->onUpdateWeights(what & 1, what & 2), std::runtime_error, "default weight changed");
          return;
        }
        a->onUpdateWeights(what & 1, what & 2);
        weight = w2;
        aniso = a2;
        g.tag("weights");
        break;
      }
      case 3:
      {
        g.log("new target storage");
        t.alloc(g, rows, vars.totalSize());
        auto & T = a->target();
        if(t.type == Type::DOUBLE_SIDED)
          T.changeData(MatrixRef(t.A), VectorRef(t.l), VectorRef(t.u));
        else if(t.rhs != RHS::ZERO)
          T.changeData(MatrixRef(t.A), VectorRef(t.b));
        else
          T.setA(t.A);
        a->onUpdatedTarget();
        g.tag("target");
        break;
      }
      case 4:
      {
        if(g.coin() && decoys.size() < 3)
          decoys.push_back(Space(g.range(1, 2)).createVariable("decoy"));
        else if(g.coin())
          decoys.clear();
        int before = vars.totalSize();
        vars = layout();
        bool now = vars.totalSize() == before && g.coin();
        if(now)
        {
          t.A.middleRows(t.range->start, rows).setZero();
          a->onUpdatedMapping(vars, true);
        }
        else
        {
          a->onUpdatedMapping(vars, false);
          t.alloc(g, rows, vars.totalSize());
          auto & T = a->target();
          if(t.type == Type::DOUBLE_SIDED)
            T.changeData(MatrixRef(t.A), VectorRef(t.l), VectorRef(t.u));
          else if(t.rhs != RHS::ZERO)
            T.changeData(MatrixRef(t.A), VectorRef(t.b));
          else
            T.setA(t.A);
          a->onUpdatedTarget();
        }
        g.tag("mapping");
        break;
      }
      case 5:
      {
        g.log("move");
        Assignment b(std::move(*a));
        a.reset(new Assignment(std::move(b)));
        break;
      }
      case 6:
        if(!hasSub) break;
        g.log("change of substitution data");
        for(auto & d : subsD)
        {
          for(size_t i = 0; i < d.y.size(); ++i) d.Y[i].change(g, static_cast<int>(d.b.size()), d.y[i].size);
          if(!d.b.isZero()) d.b = g.bulkVec(static_cast<int>(d.b.size()));
          d.push();
        }
        subs.updateSubstitutions();
        break;
      case 7:
        g.log("reprocess");
        a.reset(new Assignment(Assignment::reprocess(*a, vars, hasSub ? &subs : nullptr)));
        defS = defW && !setW && scal == 1;
        defA = defA && !setA;
        break;
      default: g.log("run");
    }
    if(g.coin(2, 3))
    {
      a->run();
      check();
      if(changed && (t.type != s.type || t.rhs != s.rhs || !defW || !defA || hasSub)) g.nontrivial();
    }
  }
  a->run();
  check();
}

PROPERTY(bounds, 90000, 900000)
{
  World w;
  w.generate(g, 2, 3, true, 2, 0);
  Piece x = w.eucl(g, 0);
  int n = x.size;
  // the target: range is the one of x in the bound vectors
  int kind = g.weighted({4, 1, 1}); // double-sided, >=, <=
  Type tt = kind == 0 ? Type::DOUBLE_SIDED : kind == 1 ? Type::GREATER_THAN : Type::LOWER_THAN;
  VectorXd l, u;
  auto range = std::make_shared<Range>(0, n);
  auto alloc = [&] {
    int before = g.range(0, 3), after = g.range(0, 3);
    *range = Range(before, n);
    l = u = VectorXd::Constant(before + n + after, 5432.1);
  };
  alloc();
  auto target = [&] {
    if(kind == 0) return AssignmentTarget(range, VectorRef(l), VectorRef(u));
    return AssignmentTarget(range, VectorRef(l), tt);
  };
  g.log("bound target ", name(tt), " for ", x.name, " rows ", range->start, "+", n);
  std::vector<Source> src;
  std::vector<int> signs;
  std::vector<std::unique_ptr<Assignment>> as;
  std::vector<AssignmentTarget> ats;
  int N = g.range(1, 4);
  bool diag = false;
  for(int k = 0; k < N; ++k)
  {
    Source s;
    s.type = genType(g);
    s.rhs = genRHS(g);
    if(s.type == Type::DOUBLE_SIDED && s.rhs == RHS::ZERO) s.rhs = RHS::AS_GIVEN;
    s.p = {x};
    Block b;
    b.kind = g.range(1, 4);
    int sign = b.kind == 1 ? 1 : b.kind == 2 ? -1 : 0;
    if(b.kind >= 3 && g.coin()) sign = g.coin() ? 1 : -1;
    b.change(g, n, n, sign);
    b.declared = sign;
    s.A = {b};
    s.genRhs(g, n);
    s.build();
    g.log("source ", name(s.type), " ", name(s.rhs), " kind ", b.kind, " sign ", sign, " ", pbt::mstr(b.M.diagonal().transpose()), " l ", s.l.transpose(), " u ", s.u.transpose());
    bool possible = true;
    if(kind)
    {
      possible = (s.type == Type::GREATER_THAN || s.type == Type::LOWER_THAN) && sign != 0;
      if(possible) possible = (sign > 0) == (s.type == tt);
    }
    REQUIRE(scheme::internal::isBound(s.c), "is a bound");
    bool can = scheme::internal::canBeUsedAsBound(s.c, std::vector<VariablePtr>{}, {}, tt);
    REQUIRE(can == possible, "canBeUsedAsBound says ", can);
    ats.push_back(target());
    if(!possible)
    {
      REQUIRE_THROWS(Assignment(s.c, ats.back(), x.p, true), std::runtime_error, "cannot be a bound");
      g.tag("refused");
      continue;
    }
    as.push_back(std::make_unique<Assignment>(s.c, ats.back(), x.p, as.empty()));
    diag = diag || b.kind >= 3;
    src.push_back(s);
    signs.push_back(sign);
  }
  if(src.empty()) return;

  auto check = [&] {
    for(int i = 0; i < l.size(); ++i)
    {
      if(i >= range->start && i < range->end()) continue;
      REQUIRE(l[i] == 5432.1 && u[i] == 5432.1, "row ", i, " is not part of the target and was written");
    }
    VectorXd lo = VectorXd::Constant(n, -inf), up = VectorXd::Constant(n, inf);
    for(auto & s : src)
      for(int i = 0; i < n; ++i)
      {
        double d = s.A[0].M(i, i), a = s.lo()[i] / d, b = s.up()[i] / d;
        lo[i] = std::max(lo[i], std::min(a, b));
        up[i] = std::min(up[i], std::max(a, b));
      }
    for(int i = 0; i < n; ++i)
    {
      int r = range->start + i;
      if(kind == 0)
        REQUIRE(same(l[r], lo[i]) && same(u[r], up[i]), "component ", i, " in [", l[r], ", ", u[r], "] instead of [", lo[i], ", ", up[i], "]");
      else
        REQUIRE(same(l[r], kind == 1 ? lo[i] : up[i]), "component ", i, " bounded by ", l[r], " instead of ", kind == 1 ? lo[i] : up[i]);
    }
    REQUIRE(kind == 0 || (u.array() == 5432.1).all());
  };
  auto run = [&] {
    for(auto & a : as) a->run();
  };
  run();
  check();
  for(int k = g.range(0, 5); k > 0; --k)
  {
    switch(g.range(0, 4))
    {
      case 0:
      {
        size_t i = static_cast<size_t>(g.range(0, static_cast<int>(src.size()) - 1));
        g.log("change of source ", i);
        src[i].A[0].change(g, n, n, signs[i]);
        src[i].push();
        break;
      }
      case 1:
      {
        size_t i = static_cast<size_t>(g.range(0, static_cast<int>(src.size()) - 1));
        src[i].genRhs(g, n);
        src[i].pushRhs();
        g.log("change of the vectors of ", i, " l ", src[i].l.transpose(), " u ", src[i].u.transpose());
        break;
      }
      case 2:
        alloc();
        g.log("new storage, rows ", range->start, "+", n);
        for(auto & a : as)
        {
          if(kind == 0)
            a->target().changeData(VectorRef(l), VectorRef(u));
          else
            a->target().setb(l);
          a->onUpdatedTarget();
        }
        g.tag("target");
        break;
      case 3:
      {
        size_t i = static_cast<size_t>(g.range(0, static_cast<int>(as.size()) - 1));
        g.log("move of ", i);
        Assignment b(std::move(*as[i]));
        as[i].reset(new Assignment(std::move(b)));
        break;
      }
      default:
      {
        if(src.size() < 2) break;
        size_t i = static_cast<size_t>(g.range(0, static_cast<int>(as.size()) - 1));
        g.log("removal of ", i);
        as.erase(as.begin() + static_cast<long>(i));
        src.erase(src.begin() + static_cast<long>(i));
        signs.erase(signs.begin() + static_cast<long>(i));
        if(i == 0) as[0].reset(new Assignment(Assignment::reprocess(*as[0], x.p, true)));
        g.tag("removal");
      }
    }
    if(g.coin(2, 3))
    {
      run();
      check();
      if(diag || src.size() > 1 || signs[0] < 0) g.nontrivial();
    }
  }
  run();
  check();
}

/** Which constraints are bounds, given the substitutions, and for which conventions.*/
PROPERTY(conventions, 20000, 400000)
{
  int n = g.range(1, 3);
  int nx = g.range(0, 3);
  struct S
  {
    int ny, kind, sign;
  };
  std::vector<VariablePtr> x;
  std::vector<std::shared_ptr<function::BasicLinearFunction>> xsub;
  std::vector<S> subs;
  auto genBlock = [&](int kind, int rows, int cols, int & sign) {
    Block b;
    b.kind = kind;
    sign = kind == 1 ? 1 : kind == 2 ? -1 : 0;
    if(kind == 3 || kind == 4)
    {
      if(g.coin(2, 3)) sign = g.coin() ? 1 : -1;
      b.declared = sign;
    }
    b.change(g, rows, cols, sign);
    return b;
  };
  for(int i = 0; i < nx; ++i)
  {
    S s;
    x.push_back(Space(n).createVariable("x" + std::to_string(i)));
    s.ny = g.weighted({1, 5, 1});
    std::vector<VariablePtr> y;
    for(int j = 0; j < s.ny; ++j) y.push_back(Space(n).createVariable("y"));
    auto f = std::make_shared<function::BasicLinearFunction>(n, y);
    s.kind = 0;
    s.sign = 0;
    for(int j = 0; j < s.ny; ++j)
    {
      s.kind = g.range(0, 5);
      Block b = genBlock(s.kind, n, n, s.sign);
      f->A(b.M, *y[static_cast<size_t>(j)], b.props());
    }
    f->b(g.vec(n));
    xsub.push_back(f);
    subs.push_back(s);
    g.log("substitution of ", x.back()->name(), ": ", s.ny, " variables, kind ", s.kind, " sign ", s.sign);
  }
  int which = g.range(0, nx); // nx: not substituted
  bool part = which < nx && n > 1 && g.coin(1, 4); // a part of a substituted variable
  bool more = which < nx && !part && g.coin(1, 4); // a variable part of which is substituted
  VariablePtr v;
  if(which == nx)
    v = Space(n).createVariable("z");
  else if(part)
    v = x[static_cast<size_t>(which)]->subvariable(Space(n - 1), "part", Space(g.range(0, 1)));
  else if(more)
  {
    v = Space(n + 1).createVariable("whole");
    auto sv = v->subvariable(Space(n), "sub", Space(g.range(0, 1)));
    x[static_cast<size_t>(which)] = sv;
  }
  else
    v = x[static_cast<size_t>(which)];
  Source s;
  s.type = genType(g);
  s.rhs = s.type == Type::DOUBLE_SIDED ? RHS::AS_GIVEN : genRHS(g);
  Piece p;
  p.p = v;
  p.size = v->size();
  s.p = {p};
  int sign;
  s.A = {genBlock(g.range(0, 5), p.size, p.size, sign)};
  s.genRhs(g, p.size);
  s.build();
  g.log("constraint ", name(s.type), " on ", v->name(), " kind ", s.A[0].kind, " sign ", sign);

  bool diag = s.A[0].kind >= 1 && s.A[0].kind <= 4;
  bool bound = diag, exact = true;
  if(which < nx)
  {
    const S & u = subs[static_cast<size_t>(which)];
    bound = bound && !part && !more && u.ny == 1 && u.kind >= 1 && u.kind <= 4;
    sign *= u.sign;
    exact = s.A[0].kind <= 2 && u.kind <= 2;
  }
  REQUIRE(scheme::internal::isBound(s.c) == diag, "isBound without substitution");
  REQUIRE(scheme::internal::isBound(s.c, x, xsub) == bound, "isBound should be ", bound);
  for(auto tt : {Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED})
  {
    bool can = bound && tt != Type::EQUAL;
    if(can && tt != Type::DOUBLE_SIDED)
      can = (s.type == Type::GREATER_THAN || s.type == Type::LOWER_THAN) && sign != 0 && ((sign > 0) == (s.type == tt));
    bool said = scheme::internal::canBeUsedAsBound(s.c, x, xsub, tt);
    // Signs of products of diagonal matrices are not always known.
    if(!exact && tt != Type::EQUAL && tt != Type::DOUBLE_SIDED)
      REQUIRE(can || !said, "canBeUsedAsBound for ", name(tt), " should be false");
    else
      REQUIRE(said == can, "canBeUsedAsBound for ", name(tt), " should be ", can);
  }
  if(which < nx && diag) g.nontrivial();
}
