// Problems with substitutions: the problem received by the solver, seen through the values given to the variables, is the original one.
#pragma once
#include "lsproblem.h"
#include <Eigen/LU>
#include <Eigen/QR>
#include <Eigen/SVD>
#include <tvm/hint/Substitution.h>

namespace ls
{
inline int rankOf(const MatrixXd & A, double thr = 1e-7)
{
  if(A.size() == 0) return 0;
  Eigen::JacobiSVD<MatrixXd> svd(A);
  const auto & s = svd.singularValues();
  int r = 0;
  for(int i = 0; i < s.size(); ++i) r += s[i] > thr;
  return r;
}
inline double smallest(const MatrixXd & A, int r)
{
  if(r == 0) return 1;
  Eigen::JacobiSVD<MatrixXd> svd(A);
  return svd.singularValues()[r - 1];
}
/** The (numerical) rank is r without any doubt: TVM checks it with the tight default threshold of Eigen*/
inline bool clearRank(const MatrixXd & A, int r)
{
  if(A.size() == 0) return r == 0;
  if(rankOf(A) != r || smallest(A, r) < 1e-2) return false;
  Eigen::ColPivHouseholderQR<MatrixXd> qr(A);
  VectorXd d = qr.matrixR().diagonal().cwiseAbs();
  for(int i = r; i < d.size(); ++i)
    if(d[i] > .3 * std::numeric_limits<double>::epsilon() * static_cast<double>(d.size()) * d[0]) return false;
  return true;
}
inline MatrixXd columns(const MatrixXd & A, const std::vector<int> & cols)
{
  MatrixXd R(A.rows(), static_cast<int>(cols.size()));
  for(size_t i = 0; i < cols.size(); ++i) R.col(static_cast<int>(i)) = A.col(cols[i]);
  return R;
}
/** Biggest coefficient of what remains from the rows of from once projected on the complement of the row space of on*/
inline double spanResidual(const MatrixXd & from, const MatrixXd & on)
{
  if(from.size() == 0) return 0;
  if(on.size() == 0) return from.cwiseAbs().maxCoeff();
  Eigen::JacobiSVD<MatrixXd> svd(on, Eigen::ComputeThinU | Eigen::ComputeThinV);
  MatrixXd V = svd.matrixV();
  int r = 0;
  for(int i = 0; i < svd.singularValues().size(); ++i) r += svd.singularValues()[i] > 1e-7;
  V = MatrixXd(V.leftCols(r));
  MatrixXd res = from - from * V * V.transpose();
  return res.cwiseAbs().maxCoeff();
}

struct Sub
{
  std::vector<LTaskPtr> tasks;
  std::vector<VariablePtr> x;
  std::vector<int> cols;
  int m = 0, n = 0, r = 0;
  std::unique_ptr<hint::Substitution> s;

  MatrixXd own(const World & w) const
  {
    MatrixXd A(m, n);
    int i = 0;
    for(auto & t : tasks)
    {
      MatrixXd J;
      VectorXd l, u;
      t->rows(w, J, l, u);
      A.middleRows(i, t->m) = columns(J, cols);
      i += t->m;
    }
    return A;
  }
};
using SubPtr = std::shared_ptr<Sub>;

struct SubProblem
{
  Gen & g;
  World & w;
  LinearizedControlProblem & pb;
  std::vector<LTaskPtr> tasks; // other tasks
  std::vector<SubPtr> subs;
  bool interesting = false; // there is a substitution with a remaining task or another substitution depending on it

  SubProblem(Gen & g_, World & w_, LinearizedControlProblem & pb_) : g(g_), w(w_), pb(pb_) {}

  bool substituted(int k) const
  {
    for(auto & s : subs)
      for(int c : s->cols)
        if(c == k) return true;
    return false;
  }
  std::vector<int> coords(const Variable & v) const
  {
    std::vector<int> r;
    int s = w.start(v);
    for(int i = 0; i < v.size(); ++i) r.push_back(s + i);
    return r;
  }

  void log(const Sub & s)
  {
    g.logs("substitution of");
    for(auto & x : s.x) g.logs(" ", x->name());
    g.log(" (n=", s.n, ", m=", s.m, ", r=", s.r, ") by");
    for(auto & t : s.tasks) g.log("  ", t->desc());
  }

  /** Draw a substitution and its tasks. Null if not possible*/
  SubPtr genSub()
  {
    auto s = std::make_shared<Sub>();
    bool quad = g.coin(1, 5);
    int d = quad ? 1 : 0;
    std::vector<Piece> xs;
    for(auto & q : w.disjoint(g, g.weighted({3, 1}) + 1, quad ? 0 : w.maxD))
    {
      if(!q.p->isEuclidean()) continue;
      bool ok = true;
      for(int i = 0; i < q.size; ++i) ok = ok && !substituted(w.start(q, q.d + d) + i);
      if(ok) xs.push_back(q);
    }
    if(xs.empty()) return nullptr;
    for(auto & q : xs)
    {
      VariablePtr v = quad ? dot(q.p) : q.p;
      s->x.push_back(v);
      s->n += v->size();
      for(int c : coords(*v)) s->cols.push_back(c);
    }
    int nc = g.weighted({4, 1}) + 1;
    int budget = s->n;
    int kind = 0;
    for(int i = 0; i < nc && budget > 0; ++i)
    {
      auto t = std::make_shared<LTask>();
      t->kind = quad ? LTask::Quadratic : LTask::Linear;
      t->type = Type::EQUAL;
      t->p = 0;
      t->m = g.coin(1, 2) ? budget : g.range(1, budget);
      budget -= t->m;
      auto disjoint = [&](const Piece & q) {
        for(auto & o : t->x)
          if(o.intersects(q)) return false;
        return true;
      };
      for(auto & x : xs)
      {
        Piece q = x;
        if(g.coin(1, 5))
        {
          // a bigger variable
          int e0 = g.range(0, q.e0), e1 = g.range(q.e0 + q.ne, w.pool.roots[static_cast<size_t>(q.root)].n());
          q = w.pool.make(q.root, e0, e1 - e0, q.d);
          if(!q.p->isEuclidean()) q = x;
        }
        if(!disjoint(q)) return nullptr;
        for(auto & y : xs)
          if(!(&y == &x) && y.intersects(q)) q = x;
        t->x.push_back(q);
      }
      for(auto & q : w.disjoint(g, g.range(0, 3), quad ? 0 : w.maxD))
      {
        if(!q.p->isEuclidean()) continue;
        bool ok = disjoint(q);
        for(auto & x : xs) ok = ok && !x.intersects(q);
        if(ok) t->x.push_back(q);
      }
      s->tasks.push_back(t);
      s->m += t->m;
    }
    s->r = s->m;
    bool simple = xs.size() == 1 && s->tasks.size() == 1 && s->m == s->n && *s->tasks[0]->unknown(0) == *s->x[0];
    if(!quad)
    {
      if(simple && g.coin()) s->tasks[0]->shape = static_cast<LTask::Shape>(g.range(1, 4));
      else if(s->tasks.size() == 1 && g.coin(1, 4))
      {
        kind = 1;
        s->r = g.range(0, s->m - 1);
        // lower rank. The columns are those of x in the variables of the task
        auto & t = *s->tasks[0];
        std::vector<int> cols;
        for(auto & x : s->x)
        {
          int c = 0;
          for(size_t k = 0; k < t.x.size(); ++k)
          {
            VariablePtr v = t.unknown(k);
            if(v->contains(*x))
            {
              int o = w.start(*x) - w.start(*v);
              for(int i = 0; i < x->size(); ++i) cols.push_back(c + o + i);
            }
            c += v->size();
          }
        }
        int m = s->m, n = s->n, r = s->r;
        Gen * pg = &g;
        t.adjust = [=](MatrixXd & A) {
          MatrixXd B = pg->bulk(m, r) * pg->bulk(r, n);
          for(int i = 0; i < n; ++i) A.col(cols[static_cast<size_t>(i)]) = B.col(i);
        };
      }
    }
    GenOptions o;
    for(auto & t : s->tasks) finishTask(g, t, o);
    if(!clearRank(s->own(w), s->r)) throw pbt::Discard();
    if(kind) g.tag("rank deficient");
    return s;
  }
  /** Give the substitution to the problem, together with its tasks, unless they are already in.*/
  void give(SubPtr s)
  {
    std::vector<LinearConstraintPtr> cs;
    for(auto & t : s->tasks)
    {
      if(t->tr && pb.constraintNoThrow(*t->tr)) {}
      else if(t->tr)
        pb.add(t->tr);
      else
        t->tr = pb.add(*t->task, t->requirements());
      cs.push_back(pb.constraint(*t->tr));
    }
    if(cs.size() == 1 && s->x.size() == 1 && s->r == s->m && g.coin()) s->s = std::make_unique<hint::Substitution>(cs[0], s->x[0]);
    else
      s->s = std::make_unique<hint::Substitution>(cs, s->x, s->r);
    pb.add(*s->s);
  }

  std::vector<LTaskPtr> allTasks() const
  {
    auto r = tasks;
    for(auto & s : subs) r.insert(r.end(), s->tasks.begin(), s->tasks.end());
    return r;
  }

  static bool depends(const LTask & t, const Sub & s)
  {
    for(size_t i = 0; i < t.x.size(); ++i)
      for(auto & x : s.x)
        if(t.unknown(i)->intersects(*x)) return true;
    return false;
  }
  static bool depends(const Sub & s, const Sub & u)
  {
    for(auto & t : s.tasks)
      if(depends(*t, u)) return true;
    return false;
  }

  /** Stays in the domain: known ranks, good conditioning. Returns true if the substitutions might be refused.*/
  bool refusable()
  {
    bool res = false;
    size_t n = subs.size();
    std::vector<std::vector<bool>> R(n, std::vector<bool>(n, false));
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j)
      {
        R[i][j] = i == j || depends(*subs[i], *subs[j]);
        if(i != j && R[i][j]) interesting = true;
      }
    for(size_t k = 0; k < n; ++k)
      for(size_t i = 0; i < n; ++i)
        for(size_t j = 0; j < n; ++j) R[i][j] = R[i][j] || (R[i][k] && R[k][j]);
    for(size_t i = 0; i < n; ++i)
    {
      std::vector<int> cols;
      MatrixXd A(0, w.N);
      bool deficient = false;
      int k = 0;
      for(size_t j = 0; j < n; ++j)
      {
        if(!(R[i][j] && R[j][i])) continue;
        ++k;
        auto & s = *subs[j];
        cols.insert(cols.end(), s.cols.begin(), s.cols.end());
        deficient = deficient || s.r < s.m;
        for(auto & t : s.tasks)
        {
          MatrixXd J;
          VectorXd l, u;
          t->rows(w, J, l, u);
          MatrixXd B(A.rows() + J.rows(), w.N);
          B << A, J;
          A = B;
        }
      }
      MatrixXd C = columns(A, cols);
      int r = rankOf(C);
      if(smallest(C, r) < 1e-2) throw pbt::Discard();
      if(k > 1)
      {
        g.tag("cyclic");
        if(deficient || r < C.rows()) res = true;
      }
      else if(!clearRank(C, subs[i]->r))
        throw pbt::Discard();
    }
    for(auto & t : tasks)
      for(size_t i = 0; i < t->x.size(); ++i)
        for(auto & s : subs)
          for(auto & x : s->x)
          {
            auto v = t->unknown(i);
            if(v->intersects(*x))
            {
              interesting = true;
              if(!v->contains(*x)) res = true;
            }
          }
    return res;
  }

  /** Solve with a scheme and check. Returns false if the problem was refused.*/
  bool solve(Scheme & s, bool exactCost, bool mayThrow = false)
  {
    w.setAll(g);
    bool refuse = refusable();
    auto all = allTasks();
    auto used = usedCoordinates(w, all);
    VectorXd X0 = w.all();

    // original problem
    int M = 0, O = 0;
    for(auto & u : subs) M += u->m;
    for(auto & t : tasks) O += t->m;
    MatrixXd A(M, w.N), Jo(O, w.N);
    VectorXd b(M);
    M = O = 0;
    for(auto & u : subs)
      for(auto & t : u->tasks)
      {
        MatrixXd J;
        VectorXd l, up;
        t->rows(w, J, l, up);
        A.middleRows(M, t->m) = J;
        b.segment(M, t->m) = l;
        M += t->m;
      }
    for(auto & t : tasks)
    {
      MatrixXd J;
      VectorXd l, u;
      t->rows(w, J, l, u);
      Jo.middleRows(O, t->m) = J;
      O += t->m;
    }
    Canon orig = expected(w, tasks, s.scalarization, false, used);
    bool hasObj = false;
    int nObj = 0;
    for(auto & t : tasks)
      if(t->p > 0)
      {
        hasObj = true;
        nObj += t->m;
      }
    // what the constraints are without the normalisation and merging
    std::vector<std::pair<VectorXd, double>> rows;
    for(auto & t : tasks)
    {
      if(t->p) continue;
      MatrixXd J;
      VectorXd l, u;
      t->rows(w, J, l, u);
      for(int i = 0; i < t->m; ++i)
      {
        rows.push_back({J.row(i).transpose(), u[i]});
        rows.push_back({-J.row(i).transpose(), -l[i]});
      }
    }

    MatrixXd Ab(M, w.N + 1);
    if(M) Ab << A, b;
    bool inconsistent = M && rankOf(Ab) > rankOf(A); // the substituted constraints have no solution
    auto one = [&](const VectorXd & x) {
      w.setAll(X0);
      backend::reset();
      backend::state().solve = [&](const backend::Problem & p) { return x.size() ? x : VectorXd(VectorXd::Zero(p.n)); };
      REQUIRE(s.s->solve(pb), "the resolution failed");
      REQUIRE(backend::state().misuse.empty(), "misuse of the solver: ", backend::state().misuse);
      VectorXd X = w.all();
      REQUIRE(X.allFinite(), "non-finite values ", X.transpose());
      for(int i = 0; i < w.N; ++i)
        if(!used[static_cast<size_t>(i)]) REQUIRE(X[i] == X0[i], "coordinate ", i, " changed although it is not in the problem");
      return X;
    };
    VectorXd p;
    try
    {
      p = one(VectorXd());
    }
    catch(const std::runtime_error & e)
    {
      REQUIRE(refuse || mayThrow, "unexpected exception: ", e.what());
      g.tag("refused");
      return false;
    }
    if(subs.size() && !(M == 0)) g.tag("with substitutions");
    if(p.cwiseAbs().maxCoeff() > 1e4) throw pbt::Discard();
    if(backend::state().nbSolve == 0)
    {
      // nothing for the solver: only the substitutions remain
      if(inconsistent) return true;
      if(M) REQUIRE((A * p - b).cwiseAbs().maxCoeff() < 1e-7, "the substituted constraints are not satisfied, residual ", (A * p - b).transpose());
      MatrixXd AJ(M + O, w.N);
      AJ << A, Jo;
      REQUIRE(rankOf(AJ) == rankOf(A), "the solver was not called although tasks remain");
      g.tag("no resolution");
      return true;
    }
    int n = backend::state().last.n;
    REQUIRE(backend::state().nbSolve == 1, "number of calls to the solver");
    Canon rec = received(backend::state().last, 1e-9);
    MatrixXd P(w.N, n);
    bool same = true;
    for(int i = 0; i < n; ++i)
    {
      P.col(i) = one(VectorXd::Unit(n, i)) - p;
      Canon again = received(backend::state().last, 1e-9);
      same = same && (again.n == n && pbt::close(again.H, rec.H, 1e-9) && pbt::close(again.g, rec.g, 1e-9) && again.rows.size() == rec.rows.size());
    }
    if(P.cwiseAbs().maxCoeff() > 1e4) throw pbt::Discard();
    // Cost
    if(s.cholesky && (hasObj || s.autoDamping))
    {
      MatrixXd H = P.transpose() * orig.H * P;
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(H);
      if(hasObj && nObj >= n && !(es.eigenvalues()[0] > 1e-6 * es.eigenvalues()[n - 1])) return true;
    }
    REQUIRE(same, "solving again gives another problem");
    Canon red(n);
    red.eps = 1e-9;
    red.H = P.transpose() * orig.H * P;
    red.g = P.transpose() * (orig.H * p + orig.g);
    if(!hasObj && s.autoDamping) red.H.setIdentity();
    double k = 1;
    double se = std::max(red.H.cwiseAbs().maxCoeff(), red.g.cwiseAbs().maxCoeff());
    double sr = std::max(rec.H.cwiseAbs().maxCoeff(), rec.g.cwiseAbs().maxCoeff());
    if(!exactCost && se > 1e-12 && sr > 1e-12) k = sr / se;
    double tol = 1e-6 * (1e-5 + std::max(k * se, sr));
    if(exactCost) tol += 1e-6;
    tol += 2e-12;
    REQUIRE((k * red.H - rec.H).cwiseAbs().maxCoeff() < tol, "wrong matrix of the cost, received\n", rec.H, "\nexpected\n", k * red.H, "\nX = P s + p with P\n", P, "\np ", p.transpose());
    REQUIRE((k * red.g - rec.g).cwiseAbs().maxCoeff() < tol, "wrong vector of the cost, received\n", rec.g.transpose(), "\nexpected\n", k * red.g.transpose(), "\nX = P s + p with P\n", P, "\np ", p.transpose());
    // Constraints of the other tasks
    for(auto & r : rows) red.add(P.transpose() * r.first, r.second - r.first.dot(p));
    MatrixXd E(M, n + 1);
    if(M) E << A * P, b - A * p;
    if(inconsistent) return true;
    if(M && E.leftCols(n).cwiseAbs().maxCoeff() > 1e-7)
    {
      g.tag("remaining constraints");
      // when additional constraints are parallel to others, the comparison is not direct
      for(auto & r : red.rows)
        if(spanResidual(r.first.transpose(), E.leftCols(n)) < 1e-5) return true;
    }
    REQUIRE(red.infeasible == rec.infeasible || M, "rows 0 <= b");
    auto match = [](const std::pair<VectorXd, double> & a, const std::pair<VectorXd, double> & b) {
      return (a.first - b.first).cwiseAbs().maxCoeff() < 1e-6 && std::abs(a.second - b.second) < 1e-6 * (1 + std::abs(a.second));
    };
    std::vector<bool> matched(rec.rows.size(), false);
    for(auto & r : red.rows)
    {
      bool found = false;
      for(size_t i = 0; i < rec.rows.size() && !found; ++i)
        if(match(r, rec.rows[i])) matched[i] = found = true;
      REQUIRE(found, "missing constraint ", r.first.transpose(), " <= ", r.second, "\nreceived\n", show(rec), "expected\n", show(red), "X = P s + p with P\n", P, "\np ", p.transpose());
    }
    std::vector<std::pair<VectorXd, double>> left;
    for(size_t i = 0; i < matched.size(); ++i)
      if(!matched[i]) left.push_back(rec.rows[i]);
    MatrixXd L(static_cast<int>(left.size()), n + 1);
    for(size_t i = 0; i < left.size(); ++i)
    {
      L.row(static_cast<int>(i)) << left[i].first.transpose(), left[i].second;
      bool found = false;
      for(size_t j = 0; j < left.size() && !found; ++j) found = match({-left[i].first, -left[i].second}, left[j]);
      REQUIRE(found, "unexpected constraint ", left[i].first.transpose(), " <= ", left[i].second, "\nreceived\n", show(rec), "expected\n", show(red));
    }
    // The remaining constraints are what is left of the substituted constraints
    REQUIRE(spanResidual(E, L) < 1e-5, "the substituted constraints are not satisfied: for X = P s + p with P\n", P, "\np ", p.transpose(), "\nthe substituted constraints are [C | d]:\n", E, "\nwhile the remaining constraints are\n", L);
    REQUIRE(spanResidual(L, E) < 1e-5, "unexpected constraints, for X = P s + p with P\n", P, "\np ", p.transpose(), "\nthe substituted constraints are [C | d]:\n", E, "\nwhile the remaining constraints are\n", L);
    // No solution was lost
    MatrixXd AJ(M + O, w.N), LJ(L.rows() + O, n);
    AJ << A, Jo;
    LJ << L.leftCols(n), Jo * P;
    int d0 = rankOf(AJ, 1e-6) - rankOf(A, 1e-6), d1 = rankOf(LJ, 1e-6) - rankOf(L.leftCols(n), 1e-6);
    REQUIRE(d0 == d1, "the values of the tasks have ", d0, " degrees of freedom, but ", d1, " after substitution");
    return true;
  }
};
} // namespace ls
