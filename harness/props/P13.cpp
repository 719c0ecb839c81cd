#include "world.h"
#include <Eigen/LU>
#include <Eigen/SVD>
#include <numeric>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/AutoCalculator.h>
#include <tvm/hint/internal/DiagonalCalculator.h>
#include <tvm/hint/internal/GenericCalculator.h>

using namespace vars;
using constraint::BasicLinearConstraint;
using constraint::Type;
using hint::Substitution;
using tvm::internal::MatrixProperties;

const pbt::Info pbt::info = {
    "P13",
    "generic: 1 to 3 constraints on 1 to 3 (sub)variables with a jacobian of any shape m <= n and rank r <= m, updated up to 5 times with other values of the same rank or with a matrix that lost rank. "
    "diagonal: a selection of rows of a diagonal matrix, contiguous or not, with or without zero rows, and invalid structures. automatic: identity, diagonal or generic jacobian with declared properties. "
    "Non-trivial: the matrix is not square and invertible, or it was changed after the first update. Distinctness: the sequence of choices."};

namespace
{
using Calc = std::shared_ptr<hint::abstract::SubstitutionCalculatorImpl>;

/** ratio between the smallest of the r singular values that should not be zero and the biggest, 0 if the rank is not r*/
double conditioning(const MatrixXd & A, int r)
{
  if(r == 0) return A.isZero(0) ? 1 : 0;
  Eigen::JacobiSVD<MatrixXd> svd(A);
  const auto & s = svd.singularValues();
  if(s.size() < r || s[0] == 0) return 0;
  if(r < s.size() && s[r] > 1e-10 * s[0]) return 0;
  return s[r - 1] / s[0];
}

int rankOf(const MatrixXd & A)
{
  if(A.size() == 0) return 0;
  Eigen::FullPivLU<MatrixXd> lu(A);
  lu.setThreshold(1e-6);
  return static_cast<int>(lu.rank());
}

/** All what is expected from an updated calculator for the matrix A*/
void checkCalculator(Gen & g, const Calc & c, const MatrixXd & A, int r)
{
  int m = static_cast<int>(A.rows()), n = static_cast<int>(A.cols());
  REQUIRE(c->m() == m && c->n() == n && c->r() == r, "sizes ", c->m(), " ", c->n(), " ", c->r());
  MatrixXd As = MatrixXd::Constant(n, m, 77), St = MatrixXd::Constant(m - r, m, 77);
  MatrixXd I = MatrixXd::Identity(m, m);
  c->premultiplyByASharpAndSTranspose(As, St, I, false);
  double scale = 1 + A.norm() * As.norm();
  auto zero = [&](const MatrixXd & M, double s) { return M.size() == 0 || M.cwiseAbs().maxCoeff() <= 1e-10 * s; };
  REQUIRE(As.allFinite() && St.allFinite());
  REQUIRE(zero(A * As * A - A, (1 + A.norm()) * scale), "A A# A - A is\n", A * As * A - A);
  REQUIRE(zero(St * A, 1 + A.norm()), "S^T A is\n", St * A);
  REQUIRE(rankOf(St) == m - r, "S is\n", St.transpose());
  // N
  const MatrixXd & N = c->N();
  REQUIRE(N.rows() == n && N.cols() == n - r, "N is ", N.rows(), "x", N.cols());
  REQUIRE(zero(A * N, scale), "A N is\n", A * N);
  REQUIRE(rankOf(N) == n - r, "N is\n", N);
  // the operations are the products by these matrices
  int k = g.range(1, 3 * n);
  MatrixXd in = g.bulk(m, k), out = MatrixXd::Constant(n, k, 77), outS = MatrixXd::Constant(m - r, k, 77);
  bool minus = g.coin();
  c->premultiplyByASharpAndSTranspose(out, outS, in, minus);
  REQUIRE_CLOSE(out, (minus ? -1 : 1) * As * in, "product by A#, minus ", minus);
  REQUIRE_CLOSE(outS, St * in, "product by S^T, minus ", minus);
  int p = g.range(1, 4);
  bool add = g.coin();
  MatrixXd M = g.bulk(p, n), o0 = g.bulk(p, n - r), o = o0;
  c->postMultiplyByN(o, M, add);
  REQUIRE_CLOSE(o, (add ? o0 : MatrixXd::Zero(p, n - r).eval()) + M * N, "product by N, add ", add);
  int s = g.range(0, n - 1), d = g.range(1, n - s);
  MatrixXd Ms = g.bulk(p, d);
  o = o0;
  c->postMultiplyByN(o, Ms, Range(s, d), add);
  REQUIRE_CLOSE(o, (add ? o0 : MatrixXd::Zero(p, n - r).eval()) + Ms * N.middleRows(s, d), "product by rows ", s, "+", d, " of N, add ", add);
}
} // namespace

PROPERTY(generic, 150000, 1500000)
{
  World w;
  w.generate(g, 3, 2, true, 3, 0);
  auto px = w.disjoint(g, g.range(1, 3), 0);
  std::vector<VariablePtr> x;
  int n = 0;
  for(auto & q : px)
  {
    x.push_back(q.p);
    n += q.size;
  }
  int m = g.range(1, n);
  int nc = g.range(1, std::min(3, m));
  std::vector<int> rows;
  for(int i = 0, left = m; i < nc; ++i)
  {
    int s = i == nc - 1 ? left : g.range(1, left - (nc - 1 - i));
    rows.push_back(s);
    left -= s;
  }
  // which variable appears in which constraint
  std::vector<std::vector<bool>> in(static_cast<size_t>(nc), std::vector<bool>(x.size(), true));
  if(g.coin(1, 3))
    for(auto & r : in)
      for(size_t j = 0; j < x.size(); ++j) r[j] = g.coin(2, 3);
  for(auto & r : in)
    if(std::find(r.begin(), r.end(), true) == r.end()) r[0] = true;
  for(size_t j = 0; j < x.size(); ++j)
  {
    bool some = false;
    for(auto & r : in) some = some || r[j];
    if(!some) in[0][j] = true;
  }
  // rank deficiency, by zero or proportional rows
  int def = g.weighted({3, 1, 1});
  int r = def ? g.range(1, m) : m;
  bool proportional = def == 2;
  auto genA = [&](int rank) {
    MatrixXd A = g.bulk(m, n);
    int row = 0;
    for(size_t i = 0; i < in.size(); ++i)
    {
      int col = 0;
      for(size_t j = 0; j < x.size(); ++j)
      {
        if(!in[i][j]) A.block(row, col, rows[i], x[j]->size()).setZero();
        col += x[j]->size();
      }
      row += rows[i];
    }
    // remove rows
    std::vector<int> order(static_cast<size_t>(m));
    std::iota(order.begin(), order.end(), 0);
    for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[static_cast<size_t>(g.range(0, static_cast<int>(i) - 1))]);
    for(int k = rank; k < m; ++k)
    {
      if(proportional && rank > 0 && in[0] == std::vector<bool>(x.size(), true) && nc == 1)
        A.row(order[static_cast<size_t>(k)]) = 2 * A.row(order[static_cast<size_t>(k % rank)]);
      else
        A.row(order[static_cast<size_t>(k)]).setZero();
    }
    return A;
  };
  // other variables of the constraints
  std::vector<VariablePtr> other;
  if(g.coin()) other.push_back(Space(2).createVariable("other"));
  std::vector<std::shared_ptr<BasicLinearConstraint>> cs;
  std::vector<LinearConstraintPtr> cstr;
  for(int i = 0; i < nc; ++i)
  {
    std::vector<VariablePtr> v;
    for(auto & o : other) v.push_back(o);
    for(size_t j = 0; j < x.size(); ++j)
      if(in[static_cast<size_t>(i)][j])
      {
        // the constraint may be on a bigger variable
        v.push_back(x[j]);
      }
    if(g.coin()) std::reverse(v.begin(), v.end());
    cs.push_back(std::make_shared<BasicLinearConstraint>(rows[static_cast<size_t>(i)], v, Type::EQUAL));
    for(auto & o : other) cs.back()->A(g.bulk(rows[static_cast<size_t>(i)], o->size()), *o);
    cstr.push_back(cs.back());
  }
  auto push = [&](const MatrixXd & A) {
    int row = 0;
    for(size_t i = 0; i < in.size(); ++i)
    {
      int col = 0;
      for(size_t j = 0; j < x.size(); ++j)
      {
        if(in[i][j]) cs[i]->A(A.block(row, col, rows[i], x[j]->size()), *x[j]);
        col += x[j]->size();
      }
      row += rows[i];
    }
  };
  MatrixXd A = genA(r);
  if(conditioning(A, r) < 1e-3) throw pbt::Discard();
  push(A);
  g.log(m, "x", n, " rank ", r, ", ", nc, " constraints, ", x.size(), " variables", proportional ? ", proportional rows" : "");
  g.log(pbt::mstr(A));
  std::unique_ptr<Substitution> s;
  int rk = r == m && g.coin() ? constant::fullRank : r;
  if(g.coin())
    s.reset(new Substitution(cstr, x, rk, hint::internal::GenericCalculator()));
  else
    s.reset(new Substitution(cstr, x, rk));
  REQUIRE(s->rank() == r && s->m() == m && s->isSimple() == (nc == 1 && x.size() == 1));
  Calc c = s->calculator();
  if(m != n || r != m) g.nontrivial();
  bool fragile = proportional && r < m;
  auto update = [&] {
    try
    {
      c->update();
      return true;
    }
    catch(const std::runtime_error &)
    {
      // the rank of a matrix with proportional rows is a matter of rounding
      if(!fragile) throw;
      g.tag("rank not recognised");
      return false;
    }
  };
  if(update()) checkCalculator(g, c, A, r);
  for(int k = g.range(0, 5); k > 0; --k)
  {
    bool lost = g.coin(1, 4);
    int r2 = lost ? g.range(0, r - 1) : r;
    bool keep = proportional;
    if(lost) proportional = false;
    A = genA(r2);
    proportional = keep;
    if(conditioning(A, r2) < 1e-3) continue;
    push(A);
    g.log("change: ", pbt::mstr(A));
    g.nontrivial();
    if(lost)
    {
      g.tag("lost rank");
      REQUIRE_THROWS(c->update(), std::runtime_error, "the rank is ", r2, " instead of ", r);
    }
    else
    {
      if(update()) checkCalculator(g, c, A, r);
    }
  }
}

PROPERTY(diagonal, 80000, 800000)
{
  int n = g.range(1, 7);
  VariablePtr x = Space(n).createVariable("x");
  VariablePtr y = Space(2).createVariable("y");
  bool contiguous = g.coin();
  // role of each index: 0 absent, 1 non zero, 2 zero row
  std::vector<int> role(static_cast<size_t>(n), 0);
  int first = 0, size = -1;
  if(contiguous)
  {
    first = g.range(0, n - 1);
    size = g.range(1, n - first);
    for(int i = first; i < first + size; ++i) role[static_cast<size_t>(i)] = 1;
  }
  else
  {
    for(auto & k : role) k = g.weighted({2, 3, 2});
    if(std::find(role.begin(), role.end(), 1) == role.end()) role[static_cast<size_t>(g.range(0, n - 1))] = 1;
  }
  std::vector<Eigen::DenseIndex> nnz, zeros;
  std::vector<int> rowOf;
  int m = 0, r = 0;
  for(int i = 0; i < n; ++i)
  {
    if(role[static_cast<size_t>(i)] == 1)
    {
      nnz.push_back(i);
      ++r;
    }
    if(role[static_cast<size_t>(i)] == 2) zeros.push_back(i);
    if(role[static_cast<size_t>(i)]) ++m;
  }
  auto genA = [&] {
    MatrixXd A = MatrixXd::Zero(m, n);
    int row = 0;
    for(int i = 0; i < n; ++i)
    {
      if(role[static_cast<size_t>(i)] == 1) A(row, i) = g.nonZero(3);
      if(role[static_cast<size_t>(i)]) ++row;
    }
    return A;
  };
  MatrixXd A = genA();
  std::vector<VariablePtr> xy{x, y};
  auto c = std::make_shared<BasicLinearConstraint>(m, xy, Type::EQUAL);
  c->A(A, *x);
  c->A(g.bulk(m, 2), *y);
  g.log(n, " columns, ", contiguous ? "contiguous" : "selection", ":");
  for(int k : role) g.logs(" ", k);
  g.log("");
  std::unique_ptr<hint::abstract::SubstitutionCalculator> calc;
  int bad = g.weighted({8, 1, 1, 1});
  if(contiguous)
  {
    if(bad == 1)
    {
      g.tag("invalid");
      REQUIRE_THROWS(hint::internal::DiagonalCalculator(-1 - g.range(0, 2), size), std::runtime_error, "negative first");
      REQUIRE_THROWS(hint::internal::DiagonalCalculator(first, -2 - g.range(0, 2)), std::runtime_error, "negative size");
      return;
    }
    if(bad == 2)
    {
      // more rows than what fits after the first one
      int f = n - r + g.range(1, 3);
      g.log("invalid first ", f, " for ", r, " rows");
      g.tag("invalid");
      REQUIRE_THROWS(Substitution(c, x, r, hint::internal::DiagonalCalculator(f, r)), std::runtime_error, "rows out of the matrix");
      return;
    }
    if(bad == 3)
    {
      g.tag("invalid");
      REQUIRE_THROWS(Substitution(c, x, r, hint::internal::DiagonalCalculator(first, r + 1)), std::runtime_error, "size incoherent with the rank");
      if(m < n)
      {
        MatrixXd A2 = MatrixXd::Zero(m + 1, n);
        A2.topRows(m) = A;
        auto more = std::make_shared<BasicLinearConstraint>(A2, x, VectorXd::Zero(m + 1).eval(), Type::EQUAL);
        REQUIRE_THROWS(Substitution(more, x, r, hint::internal::DiagonalCalculator(first, size)), std::runtime_error, "row which is not in the diagonal");
      }
      std::vector<VariablePtr> two{x, y};
      if(m <= 2)
        REQUIRE_THROWS(Substitution(std::vector<LinearConstraintPtr>{c}, two, r, hint::internal::DiagonalCalculator(first, size)), std::runtime_error, "several variables");
      return;
    }
    bool toEnd = first + size == n && g.coin();
    if(toEnd && first == 0 && g.coin())
      calc.reset(new hint::internal::DiagonalCalculator());
    else
      calc.reset(new hint::internal::DiagonalCalculator(first, toEnd ? -1 : size));
  }
  else
  {
    // the order does not matter
    auto shuffle = [&](std::vector<Eigen::DenseIndex> & v) {
      for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[static_cast<size_t>(g.range(0, static_cast<int>(i) - 1))]);
    };
    shuffle(nnz);
    shuffle(zeros);
    if(bad == 1)
    {
      auto dup = nnz;
      dup.push_back(g.pick(nnz));
      g.tag("invalid");
      REQUIRE_THROWS(hint::internal::DiagonalCalculator(dup, zeros), std::runtime_error, "duplicated index");
      auto z = zeros;
      z.push_back(g.pick(nnz));
      REQUIRE_THROWS(hint::internal::DiagonalCalculator(nnz, z), std::runtime_error, "index both zero and non-zero");
      REQUIRE_THROWS(hint::internal::DiagonalCalculator(std::vector<Eigen::DenseIndex>{}, zeros), std::runtime_error, "no row");
      // any mix with negative indices
      auto neg = g.coin() ? nnz : std::vector<Eigen::DenseIndex>{};
      neg.push_back(-1 - g.range(0, 3));
      if(g.coin())
        REQUIRE_THROWS(hint::internal::DiagonalCalculator(neg, zeros), std::runtime_error, "negative index");
      else
        REQUIRE_THROWS(hint::internal::DiagonalCalculator(nnz, neg.size() > 1 ? std::vector<Eigen::DenseIndex>{neg.back()} : neg), std::runtime_error, "negative index of a zero row");
      return;
    }
    if(bad == 2)
    {
      auto out = nnz;
      out.back() = n + g.range(0, 2);
      g.tag("invalid");
      REQUIRE_THROWS(Substitution(c, x, r, hint::internal::DiagonalCalculator(out, {})), std::runtime_error, "index out of the matrix");
      return;
    }
    if(bad == 3)
    {
      // more or less zero rows than there are
      auto z = zeros;
      if(z.empty() || (m < n && g.coin()))
      {
        if(m == n) return;
        for(int i = 0; i < n; ++i)
          if(!role[static_cast<size_t>(i)])
          {
            z.push_back(i);
            break;
          }
      }
      else
        z.pop_back();
      g.tag("invalid");
      g.log("zero rows declared: ", z.size(), " instead of ", zeros.size());
      REQUIRE_THROWS(Substitution(c, x, r, hint::internal::DiagonalCalculator(nnz, z)), std::runtime_error, "number of rows");
      return;
    }
    calc.reset(new hint::internal::DiagonalCalculator(nnz, zeros));
  }
  Substitution s(c, x, r == m && g.coin() ? constant::fullRank : r, *calc);
  Calc ca = s.calculator();
  if(m != n || r != m) g.nontrivial();
  for(int k = g.range(1, 4); k > 0; --k)
  {
    ca->update();
    g.log(pbt::mstr(A));
    checkCalculator(g, ca, A, r);
    A = genA();
    c->A(A, *x);
    g.nontrivial();
  }
}

PROPERTY(automatic, 60000, 600000)
{
  VariablePtr big = Space(3).createVariable("big");
  VariablePtr x = Space(g.range(1, 4)).createVariable("x");
  int n = x->size();
  int kind = g.range(0, 4); // identity, minus identity, diagonal, generic square, wide
  int m = kind == 4 ? g.range(1, n) : n;
  bool constantM = g.coin(1, 4);
  auto genA = [&] {
    MatrixXd A = MatrixXd::Identity(m, n);
    if(kind == 1) A = -A;
    if(kind == 2)
      for(int i = 0; i < m; ++i) A(i, i) = g.nonZero(3);
    if(kind > 2) A = g.bulk(m, n);
    return A;
  };
  auto props = [&] {
    MatrixProperties::Constness cst(constantM);
    MatrixProperties::Invertibility inv(true);
    switch(kind)
    {
      case 0: return MatrixProperties(MatrixProperties::IDENTITY);
      case 1: return MatrixProperties(MatrixProperties::MINUS_IDENTITY);
      case 2: return MatrixProperties(MatrixProperties::DIAGONAL, inv, cst);
      default: return MatrixProperties(cst);
    }
  };
  MatrixXd A = genA();
  if(conditioning(A, m) < 1e-3) throw pbt::Discard();
  g.log("kind ", kind, " constant ", constantM, " ", pbt::mstr(A));
  auto c = std::make_shared<BasicLinearConstraint>(m, x, Type::EQUAL);
  c->A(A, *x, props());
  Substitution s(c, x);
  Calc ca = s.calculator();
  for(int k = g.range(1, 4); k > 0; --k)
  {
    ca->update();
    checkCalculator(g, ca, A, m);
    if(!constantM)
    {
      MatrixXd B = genA();
      if(conditioning(B, m) < 1e-3) continue;
      A = B;
      c->A(A, *x, props());
      g.log(pbt::mstr(A));
      g.nontrivial();
    }
  }
  // invalid substitutions
  if(g.coin(1, 4))
  {
    g.tag("invalid");
    auto ineq = std::make_shared<BasicLinearConstraint>(m, x, g.coin() ? Type::GREATER_THAN : Type::DOUBLE_SIDED);
    REQUIRE_THROWS(Substitution(ineq, x), std::runtime_error, "inequality");
    REQUIRE_THROWS(Substitution(c, big), std::runtime_error, "variable not in the constraint");
    auto tall = std::make_shared<BasicLinearConstraint>(n + 1, x, Type::EQUAL);
    REQUIRE_THROWS(Substitution(tall, x), std::runtime_error, "too many equations");
    std::vector<VariablePtr> twice{x, x};
    REQUIRE_THROWS(Substitution(std::vector<LinearConstraintPtr>{c}, twice), std::runtime_error, "variable given twice");
    auto onBig = std::make_shared<BasicLinearConstraint>(1, big, Type::EQUAL);
    REQUIRE_THROWS(Substitution(std::vector<LinearConstraintPtr>{c, onBig}, std::vector<VariablePtr>{x}), std::runtime_error, "constraint without the variable");
  }
}
