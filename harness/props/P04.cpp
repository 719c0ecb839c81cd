#include "pbt.h"
#include <Eigen/Dense>
#include <tvm/internal/MatrixProperties.h>
#include <tvm/internal/MatrixWithProperties.h>

using MP = tvm::internal::MatrixProperties;
using pbt::Gen;
using Eigen::MatrixXd;

const pbt::Info pbt::info = {
    "P04",
    "declare: a small matrix (up to 4x4, of a random structure) with a random list, in a random order, of characteristics which are true "
    "for it; operators: random expressions on such matrices, the properties being computed along; contradictions; assign: assignments to "
    "matrices with properties. Non-trivial: the declared properties are not the default ones (declare), two operands with non-default "
    "properties or a depth of 2 (operators). Distinctness: the sequence of choices."};

namespace
{
const char * shapes[] = {"GENERAL", "LOWER", "UPPER", "DIAGONAL", "aI", "I", "-I", "0"};
const char * poss[] = {"NA", "PSD", "PD", "NSD", "ND", "INDEF", "NZINDEF"};

struct Facts
{
  bool shape[8], pos[7], inv, square;
};

Facts facts(const MatrixXd & M)
{
  Facts f{};
  auto r = M.rows(), c = M.cols();
  f.square = r == c;
  bool low = true, up = true;
  for(int i = 0; i < r; ++i)
    for(int j = 0; j < c; ++j)
    {
      if(j > i && M(i, j) != 0) low = false;
      if(j < i && M(i, j) != 0) up = false;
    }
  f.shape[0] = true;
  f.shape[1] = low;
  f.shape[2] = up;
  f.shape[3] = low && up;
  f.shape[7] = M.isZero(0);
  f.pos[0] = true;
  if(!f.square) return f;
  f.shape[4] = M == M(0, 0) * MatrixXd::Identity(r, c);
  f.shape[5] = M == MatrixXd::Identity(r, c);
  f.shape[6] = M == -MatrixXd::Identity(r, c);
  MatrixXd S = M;
  double mx = std::max(1e-300, S.cwiseAbs().maxCoeff());
  Eigen::JacobiSVD<MatrixXd> svd(S / mx);
  double smin = svd.singularValues()(r - 1);
  if(smin > 1e-13 && smin < 1e-7) throw pbt::Discard();
  f.inv = smin >= 1e-7;
  if(M == M.transpose())
  {
    Eigen::VectorXd e = Eigen::SelfAdjointEigenSolver<MatrixXd>(S / mx).eigenvalues();
    bool neg = e[0] < -1e-10, pos = e[r - 1] > 1e-10;
    f.pos[1] = !neg;
    f.pos[2] = !neg && f.inv;
    f.pos[3] = !pos;
    f.pos[4] = !pos && f.inv;
    f.pos[5] = true;
    f.pos[6] = f.inv;
  }
  return f;
}

MatrixXd genMatrix(Gen & g, int n)
{
  auto ints = [&](int r, int c) {
    MatrixXd m(r, c);
    for(int i = 0; i < m.size(); ++i) m.data()[i] = g.range(0, 4) - 2;
    return m;
  };
  MatrixXd B = ints(n, n), I = MatrixXd::Identity(n, n);
  switch(g.range(0, 12))
  {
    case 0: return B;
    case 1: return B.triangularView<Eigen::Lower>();
    case 2: return B.triangularView<Eigen::Upper>();
    case 3: return B.diagonal().asDiagonal();
    case 4: return g.real() * I;
    case 5: return I;
    case 6: return -I;
    case 7: return 0 * I;
    case 8: return B * B.transpose();
    case 9: return B * B.transpose() + I;
    case 10: return -B * B.transpose();
    case 11: return -B * B.transpose() - I;
    default: return B + B.transpose();
  }
}

struct Decl
{
  bool has[4] = {false, false, false, false};
  MP::Shape s = MP::GENERAL;
  MP::Positiveness p = MP::NA;
  bool c = false, i = false;
};

// order: permutation of the 4 kinds of arguments
template<bool S, bool P, bool C, bool I, typename... A>
MP build(const Decl & d, const int * order, int k, const A &... a)
{
  while(k < 4 && !d.has[order[k]]) ++k;
  if(k == 4) return MP(a...);
  switch(order[k])
  {
    case 0:
      if constexpr(!S) return build<true, P, C, I>(d, order, k + 1, a..., d.s);
      break;
    case 1:
      if constexpr(!P) return build<S, true, C, I>(d, order, k + 1, a..., d.p);
      break;
    case 2:
      if constexpr(!C) return build<S, P, true, I>(d, order, k + 1, a..., MP::Constness(d.c));
      break;
    default:
      if constexpr(!I) return build<S, P, C, true>(d, order, k + 1, a..., MP::Invertibility(d.i));
  }
  std::abort();
}

MP build(Gen & g, const Decl & d)
{
  int order[4] = {0, 1, 2, 3};
  for(int i = 3; i > 0; --i) std::swap(order[i], order[g.range(0, i)]);
  return build<false, false, false, false>(d, order, 0);
}

Decl genDecl(Gen & g, const Facts & f)
{
  Decl d;
  std::vector<int> ss, ps;
  for(int i = 0; i < 8; ++i)
    if(f.shape[i]) ss.push_back(i);
  for(int i = 0; i < 7; ++i)
    if(f.pos[i]) ps.push_back(i);
  for(bool & b : d.has) b = g.coin(2, 3);
  // the default value is used for what is not given
  if(d.has[0]) d.s = static_cast<MP::Shape>(g.pick(ss));
  if(d.has[1]) d.p = static_cast<MP::Positiveness>(g.pick(ps));
  bool cst = d.s >= MP::IDENTITY;
  if(d.has[2]) d.c = cst || g.coin();
  bool deduced = d.s == MP::IDENTITY || d.s == MP::MINUS_IDENTITY || d.p == MP::POSITIVE_DEFINITE || d.p == MP::NEGATIVE_DEFINITE
                 || d.p == MP::NON_ZERO_INDEFINITE;
  if(d.has[3]) d.i = deduced || (f.inv && g.coin());
  return d;
}

std::string show(const MP & p)
{
  return std::string(shapes[p.shape()]) + " " + poss[p.positiveness()] + (p.isConstant() ? " const" : "") + (p.isInvertible() ? " inv" : "");
}

void sound(const MP & p, const MatrixXd & M, const Facts & f)
{
#define IMPLIES(FUN, FACT) REQUIRE(!p.FUN() || (FACT), show(p), " for ", pbt::mstr(M))
  REQUIRE(f.shape[p.shape()], show(p), " for ", pbt::mstr(M));
  IMPLIES(isLowerTriangular, f.shape[1]);
  IMPLIES(isUpperTriangular, f.shape[2]);
  IMPLIES(isTriangular, f.shape[1] || f.shape[2]);
  IMPLIES(isDiagonal, f.shape[3]);
  IMPLIES(isIdentity, f.shape[5]);
  IMPLIES(isMinusIdentity, f.shape[6]);
  IMPLIES(isZero, f.shape[7]);
  if(!f.square) return;
  REQUIRE(f.pos[p.positiveness()], show(p), " for ", pbt::mstr(M));
  IMPLIES(isMultipleOfIdentity, f.shape[4]);
  IMPLIES(isInvertible, f.inv);
  IMPLIES(isSymmetric, f.pos[5]);
  IMPLIES(isPositiveSemiDefinite, f.pos[1]);
  IMPLIES(isPositiveDefinite, f.pos[2]);
  IMPLIES(isNegativeSemidefinite, f.pos[3]);
  IMPLIES(isNegativeDefinite, f.pos[4]);
  IMPLIES(isIndefinite, f.pos[5]);
  IMPLIES(isNonZeroIndefinite, f.pos[6]);
  REQUIRE(bool(p.constness()) == p.isConstant());
  REQUIRE(bool(p.invertibility()) == p.isInvertible());
#undef IMPLIES
}

bool hasShape(const MP & p, int s)
{
  bool b[] = {true, p.isLowerTriangular(), p.isUpperTriangular(), p.isDiagonal(), p.isMultipleOfIdentity(), p.isIdentity(), p.isMinusIdentity(), p.isZero()};
  return b[s];
}
bool hasPos(const MP & p, int s)
{
  bool b[] = {true, p.isPositiveSemiDefinite(), p.isPositiveDefinite(), p.isNegativeSemidefinite(), p.isNegativeDefinite(), p.isIndefinite(), p.isNonZeroIndefinite()};
  return b[s];
}
bool same(const MP & a, const MP & b)
{
  return a.shape() == b.shape() && a.positiveness() == b.positiveness() && a.isConstant() == b.isConstant() && a.isInvertible() == b.isInvertible()
         && a.isSymmetric() == b.isSymmetric();
}
std::string show(const Decl & d)
{
  std::ostringstream s;
  if(d.has[0]) s << shapes[d.s] << " ";
  if(d.has[1]) s << poss[d.p] << " ";
  if(d.has[2]) s << "const=" << d.c << " ";
  if(d.has[3]) s << "inv=" << d.i;
  return s.str();
}
} // namespace

PROPERTY(declare, 200000, 2000000)
{
  MatrixXd M = genMatrix(g, g.range(1, 4));
  Facts f = facts(M);
  Decl d = genDecl(g, f);
  g.log(pbt::mstr(M), " declared ", show(d));
  MP p = build(g, d);
  sound(p, M, f);
  // What the user says is kept
  REQUIRE(hasShape(p, d.s), show(p));
  REQUIRE(hasPos(p, d.p), show(p));
  if(d.i) REQUIRE(p.isInvertible(), show(p));
  REQUIRE(p.isConstant() == (d.c || d.s >= MP::IDENTITY), show(p));
  // and the documented deductions are made
  if(d.s == MP::IDENTITY || d.s == MP::MINUS_IDENTITY) REQUIRE(p.isInvertible(), show(p));
  if(d.s == MP::IDENTITY) REQUIRE(p.isPositiveDefinite(), show(p));
  if(d.s == MP::MINUS_IDENTITY) REQUIRE(p.isNegativeDefinite(), show(p));
  if(d.s >= MP::DIAGONAL || d.p != MP::NA) REQUIRE(p.isSymmetric(), show(p));
  if((d.s == MP::LOWER_TRIANGULAR || d.s == MP::UPPER_TRIANGULAR) && d.p != MP::NA) REQUIRE(p.isDiagonal(), show(p));
  if(hasPos(p, 2) || hasPos(p, 4) || hasPos(p, 6)) REQUIRE(p.isInvertible(), show(p));
  if(p.isInvertible() && d.p == MP::POSITIVE_SEMIDEFINITE) REQUIRE(p.isPositiveDefinite(), show(p));
  if(p.isInvertible() && d.p == MP::NEGATIVE_SEMIDEFINITE) REQUIRE(p.isNegativeDefinite(), show(p));
  if(p.isInvertible() && p.isIndefinite()) REQUIRE(p.isNonZeroIndefinite(), show(p));
  // copies
  const MP & cp = p;
  MP c1(p), c2(cp), c4;
  MP c3(std::move(c1));
  c4 = c2;
  REQUIRE(same(p, c3) && same(p, c2) && same(p, c4));
  if(d.s != MP::GENERAL || d.p != MP::NA || d.i) g.nontrivial();
}

PROPERTY(contradictions, 5000, 20000)
{
  Decl d;
  for(bool & b : d.has) b = false;
  switch(g.range(0, 4))
  {
    case 0:
    {
      static const std::pair<MP::Shape, MP::Positiveness> bad[] = {
          {MP::ZERO, MP::POSITIVE_DEFINITE},      {MP::ZERO, MP::NEGATIVE_DEFINITE},          {MP::ZERO, MP::NON_ZERO_INDEFINITE},         {MP::IDENTITY, MP::NEGATIVE_SEMIDEFINITE},
          {MP::IDENTITY, MP::NEGATIVE_DEFINITE},  {MP::MINUS_IDENTITY, MP::POSITIVE_SEMIDEFINITE}, {MP::MINUS_IDENTITY, MP::POSITIVE_DEFINITE}};
      auto b = bad[g.range(0, 6)];
      d.has[0] = d.has[1] = true;
      d.s = b.first;
      d.p = b.second;
      d.has[2] = g.coin();
      d.c = true;
      break;
    }
    case 1:
      d.has[0] = d.has[2] = true;
      d.s = static_cast<MP::Shape>(g.range(MP::IDENTITY, MP::ZERO));
      d.c = false;
      break;
    case 2:
      d.has[0] = d.has[3] = true;
      d.s = static_cast<MP::Shape>(g.range(MP::IDENTITY, MP::MINUS_IDENTITY));
      d.i = false;
      break;
    case 3:
    {
      d.has[1] = d.has[3] = true;
      MP::Positiveness b[] = {MP::POSITIVE_DEFINITE, MP::NEGATIVE_DEFINITE, MP::NON_ZERO_INDEFINITE};
      d.p = b[g.range(0, 2)];
      d.i = false;
      break;
    }
    default:
      d.has[0] = d.has[3] = true;
      d.s = MP::ZERO;
      d.i = true;
  }
  g.log(show(d));
  REQUIRE_THROWS(build(g, d), std::runtime_error);
  g.nontrivial();
}

namespace
{
struct Val
{
  MatrixXd M;
  MP p;
  bool cst; // whether the matrix really is constant, its declared properties being what they are
  int depth;
  bool def; // declared with default properties
};
Val genVal(Gen & g, int r, int c, int depth)
{
  if(depth == 0 || g.coin(1, 3))
  {
    Val v;
    v.depth = 0;
    if(r == c)
    {
      v.M = genMatrix(g, r);
      Decl d = genDecl(g, facts(v.M));
      g.logs("[", pbt::mstr(v.M), " : ", show(d), "]");
      v.p = build(g, d);
      v.def = d.s == MP::GENERAL && d.p == MP::NA;
    }
    else
    {
      // non-square matrices have no positiveness
      v.M = MatrixXd::Zero(r, c);
      v.def = g.coin();
      if(v.def)
        for(int i = 0; i < v.M.size(); ++i) v.M.data()[i] = g.range(-2, 2);
      g.logs("[", pbt::mstr(v.M), "]");
      if(!v.def) v.p = MP(MP::ZERO);
    }
    v.cst = v.p.isConstant();
    return v;
  }
  Val v;
  int op = g.range(0, 4);
  g.logs("(");
  if(op == 0)
  {
    g.logs("-");
    Val a = genVal(g, r, c, depth - 1);
    v = {-a.M, -a.p, a.cst, a.depth + 1, a.def};
  }
  else if(op == 1)
  {
    double d = g.coin(1, 3) ? static_cast<double>(g.range(-1, 1)) : g.real(3);
    g.logs(d, "*");
    Val a = genVal(g, r, c, depth - 1);
    v = {d * a.M, d * a.p, a.cst, a.depth + 1, a.def};
  }
  else if(op == 2 || op == 3)
  {
    Val a = genVal(g, r, c, depth - 1);
    g.logs(op == 2 ? " + " : " - ");
    Val b = genVal(g, r, c, depth - 1);
    if(op == 2)
      v = {a.M + b.M, a.p + b.p, a.cst && b.cst, std::max(a.depth, b.depth) + 1, a.def && b.def};
    else
      v = {a.M - b.M, a.p - b.p, a.cst && b.cst, std::max(a.depth, b.depth) + 1, a.def && b.def};
  }
  else
  {
    int k = g.coin(3, 4) ? (r == c ? r : c) : g.range(1, 3);
    Val a = genVal(g, r, k, depth - 1);
    g.logs(" * ");
    Val b = genVal(g, k, c, depth - 1);
    v = {a.M * b.M, a.p * b.p, a.cst && b.cst, std::max(a.depth, b.depth) + 1, a.def && b.def};
  }
  g.logs(")");
  Facts f = facts(v.M);
  sound(v.p, v.M, f);
  // A constant matrix is declared so, and conversely, except for those which are constant by nature.
  if(v.cst)
    REQUIRE(v.p.isConstant(), show(v.p));
  else if(v.p.isConstant())
    REQUIRE(v.p.shape() >= MP::IDENTITY, show(v.p));
  v.cst = v.p.isConstant();
  return v;
}
} // namespace

PROPERTY(operators, 200000, 2000000)
{
  int r = g.range(1, 3), c = g.coin(7, 8) ? r : g.range(1, 3);
  Val v = genVal(g, r, c, 3);
  if(v.depth >= 1 && !v.def) g.nontrivial();
}

PROPERTY(assign, 20000, 100000)
{
  using tvm::internal::MatrixWithProperties;
  int n = g.range(1, 3);
  MatrixXd A = genMatrix(g, n), B = genMatrix(g, n);
  Decl d = genDecl(g, facts(A));
  g.log(pbt::mstr(A), " : ", show(d));
  MP p = build(g, d);
  MatrixWithProperties M(A);
  M.properties(p);
  REQUIRE(M == A && same(M.properties(), p));
  MatrixWithProperties N(M);
  REQUIRE(N == A && same(N.properties(), p));
  tvm::internal::MatrixConstRefWithProperties R(M);
  REQUIRE(R == A && same(R.properties(), p));
  MP def;
  int op = g.range(0, 6);
  g.log("op ", op);
  switch(op)
  {
    case 0:
      M = B;
      REQUIRE(M == B && same(M.properties(), def), show(M.properties()));
      break;
    case 1:
      M += B;
      REQUIRE(M == A + B && same(M.properties(), def), show(M.properties()));
      break;
    case 2:
      M -= B;
      REQUIRE(M == A - B && same(M.properties(), def), show(M.properties()));
      break;
    case 3:
      M.keepProperties(true) = B;
      REQUIRE(M == B && same(M.properties(), p), show(M.properties()));
      break;
    case 4:
      M.keepProperties(false) = B;
      REQUIRE(M == B && same(M.properties(), def), show(M.properties()));
      break;
    case 5:
      M.assignKeepProperties(B);
      REQUIRE(M == B && same(M.properties(), p), show(M.properties()));
      break;
    default:
    {
      MatrixWithProperties Q(MatrixXd::Zero(n, n).eval());
      REQUIRE(same(Q.properties(), def));
      Q = M;
      REQUIRE(Q == A && same(Q.properties(), p), show(Q.properties()));
      Q.properties(def);
      REQUIRE(Q == A && same(Q.properties(), def) && same(M.properties(), p));
    }
  }
  // N is independent
  REQUIRE(N == A && same(N.properties(), p));
  if(!same(p, def)) g.nontrivial();
}
