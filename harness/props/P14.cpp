#include "subproblem.h"
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/hint/Substitution.h>
#include <tvm/hint/internal/Substitutions.h>

using namespace vars;
using constraint::BasicLinearConstraint;
using constraint::RHS;
using constraint::Type;
using hint::Substitution;
using hint::internal::Substitutions;
using tvm::internal::MatrixProperties;

const pbt::Info pbt::info = {
    "P14",
    "system: 1 to 4 substitutions of 1 or 2 (sub)variables by 1 or 2 constraints of any right-hand side convention over 1 to 5 variables split in up to 3 pieces, independent, chained or cyclic, full rank or not, "
    "followed by changes of data, additions and removals of substitutions; the affine solution set of the original equations is compared with that of the reduced system. "
    "Non-trivial: a substitution depends on another one, has a nullspace or is rank deficient, or the data or the set of substitutions changed. Distinctness: the sequence of choices."};

namespace
{
using ls::rankOf;
using ls::smallest;

struct Cstr
{
  std::shared_ptr<BasicLinearConstraint> c;
  std::vector<VariablePtr> vars;
  int m = 0;
  RHS rhs = RHS::AS_GIVEN;
  bool fixed = false; // not to be changed
  MatrixXd A; // over all the world
  VectorXd b;
};

struct Sub
{
  std::vector<VariablePtr> x;
  std::vector<int> cols; // coordinates of x in the world
  std::vector<Cstr> cstr;
  int m = 0, n = 0, r = 0;
  int kind = 0; // 0: generic, 1: product of lower rank, 2: zero rows, 3: diagonal, 4: identity, 5: minus identity, 6: multiple of identity
  std::vector<bool> zeroRow;
  std::unique_ptr<Substitution> s;
};

std::vector<int> coords(const World & w, const Variable & v)
{
  std::vector<int> r;
  int s = w.start(v);
  for(int i = 0; i < v.size(); ++i) r.push_back(s + i);
  return r;
}

struct System
{
  Gen & g;
  World w;
  std::vector<std::unique_ptr<Sub>> subs;
  Substitutions S;
  bool nontrivial = false;

  System(Gen & g_) : g(g_) {}

  bool substituted(int k) const
  {
    for(auto & s : subs)
      for(int c : s->cols)
        if(c == k) return true;
    return false;
  }

  MatrixXd own(const Sub & s) const
  {
    MatrixXd A(s.m, s.n);
    int i = 0;
    for(auto & c : s.cstr)
    {
      for(int j = 0; j < s.n; ++j) A.block(i, j, c.m, 1) = c.A.col(s.cols[static_cast<size_t>(j)]);
      i += c.m;
    }
    return A;
  }
  void setOwn(Sub & s, const MatrixXd & A)
  {
    int i = 0;
    for(auto & c : s.cstr)
    {
      for(int j = 0; j < s.n; ++j) c.A.col(s.cols[static_cast<size_t>(j)]) = A.block(i, j, c.m, 1);
      i += c.m;
    }
  }

  /** Draw the values of the matrices and vectors*/
  void fill(Sub & s, bool first)
  {
    for(auto & c : s.cstr)
    {
      if(c.fixed && !first) continue;
      c.A = MatrixXd::Zero(c.m, w.N);
      for(auto & v : c.vars) c.A.middleCols(w.start(*v), v->size()) = g.bulk(c.m, v->size());
    }
    if(!(s.cstr[0].fixed && !first))
    {
      MatrixXd A = own(s);
      switch(s.kind)
      {
        case 1:
          A = g.bulk(s.m, s.r) * g.bulk(s.r, s.n);
          break;
        case 2:
          for(int i = 0; i < s.m; ++i)
            if(s.zeroRow[static_cast<size_t>(i)]) A.row(i).setZero();
          break;
        case 3:
          A = VectorXd(g.bulkVec(s.m, .8).array() + 1).asDiagonal();
          break;
        case 4:
          A.setIdentity();
          break;
        case 5:
          A = -MatrixXd::Identity(s.m, s.n);
          break;
        case 6:
          A = g.nonZero() * MatrixXd::Identity(s.m, s.n);
          break;
        default:
          break;
      }
      setOwn(s, A);
    }
    for(auto & c : s.cstr) c.b = c.rhs == RHS::ZERO ? VectorXd(VectorXd::Zero(c.m)) : VectorXd(g.bulkVec(c.m));
  }
  /** Give the data to the constraints*/
  void give(Sub & s, bool first)
  {
    for(auto & c : s.cstr)
    {
      for(auto & v : c.vars)
      {
        if(c.fixed && !first) continue;
        MatrixProperties p;
        bool isX = s.x.size() == 1 && *v == *s.x[0];
        if(isX && s.kind == 3) p = MatrixProperties(MatrixProperties::Shape::DIAGONAL, MatrixProperties::Constness(c.fixed), MatrixProperties::Invertibility(true));
        else if(isX && s.kind == 4)
          p = MatrixProperties(MatrixProperties::Shape::IDENTITY);
        else if(isX && s.kind == 5)
          p = MatrixProperties(MatrixProperties::Shape::MINUS_IDENTITY);
        else if(isX && s.kind == 6)
          p = MatrixProperties(MatrixProperties::Shape::MULTIPLE_OF_IDENTITY, MatrixProperties::Constness(c.fixed), MatrixProperties::Invertibility(true));
        else
          p = MatrixProperties(MatrixProperties::Constness(c.fixed));
        c.c->A(c.A.middleCols(w.start(*v), v->size()), *v, p);
      }
      if(c.rhs != RHS::ZERO) c.c->b(c.rhs == RHS::OPPOSITE ? VectorXd(-c.b) : c.b);
    }
  }

  bool genSub()
  {
    auto s = std::make_unique<Sub>();
    int nx = g.weighted({3, 2}) + 1;
    std::vector<Piece> xs;
    bool overlap = g.coin(1, 8); // allow to substitute again (part of) a substituted variable
    for(int i = 0; i < nx; ++i)
    {
      Piece q = genPiece(g, w.pool);
      bool ok = true;
      for(int c : coords(w, *q.p)) ok = ok && (overlap || !substituted(c));
      for(auto & o : xs) ok = ok && !o.intersects(q);
      if(ok) xs.push_back(q);
    }
    if(xs.empty()) return false;
    for(auto & q : xs)
    {
      s->x.push_back(q.p);
      s->n += q.size;
      for(int c : coords(w, *q.p)) s->cols.push_back(c);
    }
    int nc = g.weighted({3, 1}) + 1;
    int budget = s->n + (g.coin(1, 8) ? 2 : 0); // there might be more rows than columns
    bool simple = xs.size() == 1;
    for(int i = 0; i < nc && budget > 0; ++i)
    {
      Cstr c;
      c.m = g.coin(1, 3) ? budget : g.range(1, budget);
      budget -= c.m;
      c.rhs = static_cast<RHS>(g.range(0, 2));
      // the variables: the ones containing x then others
      std::vector<Piece> vs;
      auto disjoint = [&](const Piece & q) {
        for(auto & o : vs)
          if(o.intersects(q)) return false;
        return true;
      };
      size_t first = static_cast<size_t>(g.range(0, static_cast<int>(xs.size()) - 1));
      for(size_t k = 0; k < xs.size(); ++k)
      {
        if(!(i == 0 || k == first || g.coin())) continue;
        Piece q = xs[k];
        if(g.coin(1, 4))
        {
          // a bigger variable
          int e0 = g.range(0, q.e0), e1 = g.range(q.e0 + q.ne, w.pool.roots[static_cast<size_t>(q.root)].n());
          q = w.pool.make(q.root, e0, e1 - e0, 0);
        }
        if(disjoint(q)) vs.push_back(q);
      }
      // the variables of s which are not yet held are so by a piece or not at all; they must be in the first constraint
      for(size_t k = 0; k < xs.size(); ++k)
      {
        bool in = false;
        for(auto & o : vs) in = in || o.contains(xs[k]);
        if(i == 0 && !in) throw pbt::Discard();
      }
      int no = g.range(0, 4);
      for(int k = 0; k < no; ++k)
      {
        Piece q = genPiece(g, w.pool);
        bool ok = disjoint(q);
        for(auto & x : xs) ok = ok && !x.intersects(q);
        if(ok) vs.push_back(q);
      }
      for(auto & q : vs) c.vars.push_back(q.p);
      s->cstr.push_back(c);
    }
    for(auto & c : s->cstr) s->m += c.m;
    bool allIn = true;
    for(auto & c : s->cstr)
      for(auto & x : s->x)
      {
        bool in = false;
        for(auto & v : c.vars) in = in || v->contains(*x);
        allIn = allIn && in;
      }
    simple = simple && s->cstr.size() == 1 && s->m == s->n && *s->cstr[0].vars[0] == *s->x[0];
    s->kind = simple && g.coin(1, 2) ? g.range(3, 6) : (g.coin(1, 4) ? (allIn && g.coin() ? 1 : 2) : 0);
    if(s->kind == 1) s->r = g.range(0, std::min(s->m, s->n));
    for(int i = 0; i < s->m; ++i) s->zeroRow.push_back(s->kind == 2 && g.coin(1, 3));
    if(s->cstr.size() == 1 && g.coin(1, 5)) s->cstr[0].fixed = true;
    fill(*s, true);
    MatrixXd A = own(*s);
    s->r = rankOf(A);
    if(!ls::clearRank(A, s->r)) throw pbt::Discard();
    // create the objects
    std::vector<LinearConstraintPtr> cs;
    for(auto & c : s->cstr)
    {
      c.c = std::make_shared<BasicLinearConstraint>(c.m, c.vars, Type::EQUAL, c.rhs);
      cs.push_back(c.c);
    }
    give(*s, true);
    s->s = std::make_unique<Substitution>(cs, s->x, s->r);
    g.logs("substitution of");
    for(auto & x : s->x) g.logs(" ", x->name());
    g.log(", m=", s->m, " n=", s->n, " r=", s->r, " kind ", s->kind, " by");
    for(auto & c : s->cstr)
    {
      g.logs("  ", c.m, " rows, rhs ", static_cast<int>(c.rhs), c.fixed ? " fixed" : "", ", on");
      for(auto & v : c.vars) g.logs(" ", v->name());
      g.log("");
    }
    S.add(*s->s);
    subs.push_back(std::move(s));
    return true;
  }

  bool depends(const Sub & s, const Sub & t) const
  {
    for(auto & c : s.cstr)
      for(auto & v : c.vars)
        for(auto & x : t.x)
          if(v->intersects(*x)) return true;
    return false;
  }

  /** Groups of mutually dependent substitutions*/
  std::vector<std::vector<size_t>> groups() const
  {
    size_t n = subs.size();
    std::vector<std::vector<bool>> R(n, std::vector<bool>(n, false));
    for(size_t i = 0; i < n; ++i)
      for(size_t j = 0; j < n; ++j) R[i][j] = i == j || depends(*subs[i], *subs[j]);
    for(size_t k = 0; k < n; ++k)
      for(size_t i = 0; i < n; ++i)
        for(size_t j = 0; j < n; ++j) R[i][j] = R[i][j] || (R[i][k] && R[k][j]);
    std::vector<std::vector<size_t>> res;
    std::vector<bool> done(n, false);
    for(size_t i = 0; i < n; ++i)
    {
      if(done[i]) continue;
      res.push_back({});
      for(size_t j = 0; j < n; ++j)
        if(R[i][j] && R[j][i])
        {
          res.back().push_back(j);
          done[j] = true;
        }
    }
    return res;
  }

  /** true if the substitutions might be refused. Discards if the problem is badly conditioned*/
  bool mayBeRefused()
  {
    bool res = false;
    for(auto & gr : groups())
    {
      int m = 0, n = 0;
      bool deficient = false;
      std::vector<int> cols;
      for(auto i : gr)
      {
        auto & s = *subs[i];
        m += s.m;
        n += s.n;
        cols.insert(cols.end(), s.cols.begin(), s.cols.end());
        deficient = deficient || s.r < s.m;
      }
      std::sort(cols.begin(), cols.end());
      cols.erase(std::unique(cols.begin(), cols.end()), cols.end());
      if(static_cast<int>(cols.size()) < n) g.tag("overlap");
      n = static_cast<int>(cols.size());
      if(m > n) g.tag("tall");
      MatrixXd A(m, n);
      int r = 0;
      for(auto i : gr)
        for(auto & c : subs[i]->cstr)
        {
          for(int j = 0; j < n; ++j) A.block(r, j, c.m, 1) = c.A.col(cols[static_cast<size_t>(j)]);
          r += c.m;
        }
      int rk = rankOf(A);
      if(smallest(A, rk) < 1e-2) throw pbt::Discard();
      if(gr.size() > 1)
      {
        g.tag("cyclic");
        nontrivial = true;
        if(deficient || rk < m) res = true;
      }
      else
      {
        if(subs[gr[0]]->r < subs[gr[0]]->n) nontrivial = true;
        if(!ls::clearRank(A, subs[gr[0]]->r)) throw pbt::Discard();
      }
    }
    return res;
  }

  void check()
  {
    // Original system
    int M = 0;
    for(auto & s : subs) M += s->m;
    MatrixXd A(M, w.N);
    VectorXd b(M);
    int r0 = 0;
    for(auto & s : subs)
      for(auto & c : s->cstr)
      {
        A.middleRows(r0, c.m) = c.A;
        b.segment(r0, c.m) = c.b;
        r0 += c.m;
      }
    // Offsets of the variables of the reduced system: all the coordinates of the world, then the additional variables
    int nz = 0;
    std::map<const Variable *, int> zoff;
    for(auto & z : S.additionalVariables())
    {
      REQUIRE(!zoff.count(z.get()), "duplicated additional variable");
      REQUIRE(z->size() > 0);
      zoff[z.get()] = w.N + nz;
      nz += z->size();
    }
    auto start = [&](const VariablePtr & v) {
      auto it = zoff.find(v.get());
      return it != zoff.end() ? it->second : w.start(*v);
    };
    int NW = w.N + nz;
    MatrixXd P = MatrixXd::Zero(w.N, NW);
    P.leftCols(w.N).setIdentity();
    VectorXd p = VectorXd::Zero(w.N);
    std::vector<bool> sub(static_cast<size_t>(w.N), false);
    REQUIRE(S.variables().size() == S.variableSubstitutions().size());
    for(size_t i = 0; i < S.variables().size(); ++i)
    {
      const auto & x = S.variables()[i];
      const auto & f = S.variableSubstitutions()[i];
      REQUIRE(f->size() == x->size());
      for(int k : coords(w, *x))
      {
        REQUIRE(!sub[static_cast<size_t>(k)], "coordinate ", k, " substituted twice");
        REQUIRE(substituted(k), "coordinate ", k, " should not be substituted");
        sub[static_cast<size_t>(k)] = true;
      }
      int s = w.start(*x);
      P.middleRows(s, x->size()).setZero();
      for(auto & v : f->variables())
      {
        REQUIRE(f->jacobian(*v).rows() == x->size() && f->jacobian(*v).cols() == v->size());
        P.block(s, start(v), x->size(), v->size()) += f->jacobian(*v);
      }
      p.segment(s, x->size()) = f->b();
      // the declared properties are what is used for further computations
      REQUIRE(!f->b().properties().isZero() || f->b().isZero(1e-12), "b of ", x->name(), " is declared to be zero but is ", f->b().transpose());
      for(auto & v : f->variables())
      {
        REQUIRE(!f->jacobian(*v).properties().isZero() || f->jacobian(*v).isZero(1e-12), "wrong declared property");
        REQUIRE(!f->jacobian(*v).properties().isIdentity() || f->jacobian(*v).isIdentity(1e-12), "wrong declared property");
      }
    }
    for(int k = 0; k < w.N; ++k) REQUIRE(sub[static_cast<size_t>(k)] == substituted(k), "coordinate ", k, " is not substituted");
    int R = 0;
    for(auto & c : S.additionalConstraints()) R += c->size();
    MatrixXd Rm = MatrixXd::Zero(R, NW);
    VectorXd rv(R);
    R = 0;
    for(auto & c : S.additionalConstraints())
    {
      REQUIRE(c->type() == Type::EQUAL);
      for(auto & v : c->variables()) Rm.block(R, start(v), c->size(), v->size()) += c->jacobian(*v);
      if(c->rhs() == RHS::AS_GIVEN) rv.segment(R, c->size()) = c->e();
      else if(c->rhs() == RHS::OPPOSITE)
        rv.segment(R, c->size()) = -c->e();
      else
        rv.segment(R, c->size()).setZero();
      R += c->size();
    }
    REQUIRE(P.allFinite() && p.allFinite() && Rm.allFinite() && rv.allFinite(), "P\n", P, "\np ", p.transpose(), "\nR\n", Rm, "\nr ", rv.transpose());
    // no substituted variable remains
    for(int k = 0; k < w.N; ++k)
      if(sub[static_cast<size_t>(k)])
        REQUIRE(P.col(k).isZero(0) && (R == 0 || Rm.col(k).isZero(0)), "coordinate ", k, " is still present");
    // Remove the columns of the substituted coordinates
    std::vector<int> keep;
    for(int k = 0; k < NW; ++k)
      if(k >= w.N || !sub[static_cast<size_t>(k)]) keep.push_back(k);
    int nw = static_cast<int>(keep.size());
    MatrixXd Pk(w.N, nw), Rk(R, nw);
    for(int k = 0; k < nw; ++k)
    {
      Pk.col(k) = P.col(keep[static_cast<size_t>(k)]);
      if(R) Rk.col(k) = Rm.col(keep[static_cast<size_t>(k)]);
    }
    if(P.cwiseAbs().maxCoeff() > 1e4 || p.cwiseAbs().maxCoeff() > 1e4) throw pbt::Discard();
    // 1. the equations of the original system, written with the reduced variables, are the remaining constraints
    MatrixXd E(M, nw + 1), F(R, nw + 1);
    E << A * Pk, b - A * p;
    F << Rk, rv;
    if(R == 0)
      REQUIRE(E.cwiseAbs().maxCoeff() < 1e-7, "original equations not satisfied\n", E);
    else
    {
      // projection of the rows of E on the row space of F and conversely
      auto residual = [](const MatrixXd & from, const MatrixXd & on) {
        Eigen::JacobiSVD<MatrixXd> svd(on, Eigen::ComputeThinU | Eigen::ComputeThinV);
        MatrixXd V = svd.matrixV();
        int r = 0;
        for(int i = 0; i < svd.singularValues().size(); ++i) r += svd.singularValues()[i] > 1e-7;
        V = MatrixXd(V.leftCols(r));
        MatrixXd res = from - from * V * V.transpose();
        return res.size() ? res.cwiseAbs().maxCoeff() : 0.;
      };
      double eps = 1e-6;
      double r1 = residual(E, F), r2 = residual(F, E);
      REQUIRE(r1 < eps, "the solutions of the reduced system do not satisfy the original equations (", r1, "), E\n", E, "\nF\n", F);
      REQUIRE(r2 < eps, "the remaining constraints are not implied by the original equations (", r2, ") E\n", E, "\nF\n", F);
    }
    // 2. no solution is lost, and the reduced variables are not redundant
    int rA = rankOf(A, 1e-6), rR = rankOf(Rk, 1e-6);
    REQUIRE(w.N - rA == nw - rR, "dimension of the set of solutions ", w.N - rA, " but ", nw - rR, " after substitution");
    MatrixXd PR(w.N + R, nw);
    PR << Pk, Rk;
    REQUIRE(rankOf(PR, 1e-6) == nw, "redundant reduced variables");
    // 3. values
    VectorXd wv = VectorXd::Zero(NW);
    w.setAll(g);
    wv.head(w.N) = w.all();
    for(auto & z : S.additionalVariables())
    {
      z->set(g.bulkVec(z->size()));
      wv.segment(zoff[z.get()], z->size()) = z->value();
    }
    S.updateVariableValues();
    REQUIRE(pbt::close(w.all(), VectorXd(P * wv + p), 1e-9), "values\n", w.all().transpose(), "\nexpected\n", (P * wv + p).transpose());
    // otherVariables
    std::vector<bool> other(static_cast<size_t>(w.N), false), need(static_cast<size_t>(w.N), false);
    for(auto & y : S.otherVariables())
      for(int k : coords(w, *y)) other[static_cast<size_t>(k)] = true;
    for(auto & s : subs)
      for(auto & c : s->cstr)
        for(auto & v : c.vars)
          for(int k : coords(w, *v)) need[static_cast<size_t>(k)] = !sub[static_cast<size_t>(k)];
    for(int k = 0; k < w.N; ++k) REQUIRE(other[static_cast<size_t>(k)] == need[static_cast<size_t>(k)], "otherVariables, coordinate ", k);
    // substitute(x): a variable is replaced by variables that cover the non-substituted coordinates it depends on
    for(int k = 0; k < 2; ++k)
    {
      Piece q = genPiece(g, w.pool);
      bool fine = true, touched = false; // variables are either inside q or outside
      std::vector<bool> expected(static_cast<size_t>(NW), false);
      for(int c : coords(w, *q.p))
        if(!sub[static_cast<size_t>(c)]) expected[static_cast<size_t>(c)] = true;
      for(size_t i = 0; i < S.variables().size(); ++i)
      {
        const auto & x = S.variables()[i];
        if(!x->intersects(*q.p)) continue;
        touched = true;
        if(!q.p->contains(*x)) fine = false;
        for(auto & v : S.variableSubstitutions()[i]->variables())
          for(int j = 0; j < v->size(); ++j) expected[static_cast<size_t>(start(v) + j)] = true;
      }
      if(!fine)
      {
        bool thrown = false;
        try
        {
          S.substitute(q.p);
        }
        catch(const std::runtime_error &)
        {
          thrown = true;
        }
        REQUIRE(thrown, "substitute(", q.name, ") should be refused");
        continue;
      }
      std::vector<bool> got(static_cast<size_t>(NW), false);
      VariableVector res = S.substitute(q.p);
      for(auto & v : res)
        for(int j = 0; j < v->size(); ++j) got[static_cast<size_t>(start(v) + j)] = true;
      REQUIRE(got == expected, "substitute(", q.name, ")");
      if(touched) g.tag("substitute");
    }
  }

  void run()
  {
    bool refusable = mayBeRefused();
    try
    {
      S.finalize();
      S.updateSubstitutions();
    }
    catch(const std::runtime_error & e)
    {
      g.log("refused: ", e.what());
      REQUIRE(refusable, "unexpected exception: ", e.what());
      g.tag("refused");
      throw pbt::Discard();
    }
    check();
  }
};
} // namespace

PROPERTY(system, 40000, 2000000)
{
  System s(g);
  s.w.generate(g, 5, 3, true, 3, 0);
  int n = g.range(1, 4);
  for(int i = 0; i < n; ++i) s.genSub();
  if(s.subs.empty()) throw pbt::Discard();
  bool dep = false;
  for(size_t i = 0; i < s.subs.size(); ++i)
    for(size_t j = 0; j < s.subs.size(); ++j) dep = dep || (i != j && s.depends(*s.subs[i], *s.subs[j]));
  if(dep) g.tag("dependent");
  s.nontrivial = dep;
  s.run();
  int steps = g.weighted({3, 2, 1, 1});
  for(int k = 0; k < steps; ++k)
  {
    s.nontrivial = true;
    switch(g.weighted({4, 1, 1}))
    {
      case 0:
        g.log("change of the data");
        for(auto & u : s.subs)
        {
          s.fill(*u, false);
          if(!ls::clearRank(s.own(*u), u->r)) throw pbt::Discard();
          s.give(*u, false);
        }
        s.mayBeRefused();
        try
        {
          s.S.updateSubstitutions();
        }
        catch(const std::runtime_error & e)
        {
          pbt::fail(std::string("unexpected exception ") + e.what());
        }
        s.check();
        break;
      case 1:
      {
        if(s.subs.size() < 2) break;
        size_t i = g.draw(s.subs.size());
        g.log("removal of ", i);
        g.tag("removal");
        s.S.remove(s.S.substitutions()[i]);
        s.subs.erase(s.subs.begin() + static_cast<int>(i));
        s.run();
        break;
      }
      case 2:
        g.log("addition");
        if(s.genSub())
        {
          g.tag("addition");
          s.run();
        }
        break;
    }
  }
  if(s.nontrivial) g.nontrivial();
}

PROPERTY(problem, 20000, 1000000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  LinearizedControlProblem pb;
  ls::SubProblem s(g, w, pb);
  bool priorities = g.coin(1, 4);
  ls::Scheme scheme = ls::genScheme(g, true, priorities);
  int ns = g.range(1, 3);
  for(int i = 0; i < ns; ++i)
  {
    auto u = s.genSub();
    if(!u) continue;
    s.log(*u);
    s.subs.push_back(u);
  }
  if(s.subs.empty()) throw pbt::Discard();
  ls::GenOptions o;
  o.maxPriority = priorities ? 3 : 1;
  o.maxRows = 4;
  int nt = g.range(0, 5);
  for(int i = 0; i < nt; ++i)
  {
    auto t = ls::genTask(g, w, o);
    g.log("task ", t->desc());
    t->tr = pb.add(*t->task, t->requirements());
    s.tasks.push_back(t);
  }
  for(auto & u : s.subs) s.give(u);
  if(!s.solve(scheme, true)) return;
  int again = g.weighted({3, 1});
  for(int i = 0; i < again; ++i)
  {
    g.log("new data");
    for(auto & t : s.allTasks()) t->refill(g);
    s.solve(scheme, true);
  }
  if(s.interesting) g.nontrivial();
}

PROPERTY(invalid, 20000, 500000)
{
  World w;
  w.generate(g, 4, 3, true, 3, 0);
  auto coords = [&](const Variable & v) {
    std::vector<int> r;
    for(int i = 0; i < v.size(); ++i) r.push_back(w.start(v) + i);
    return r;
  };
  int nc = g.range(1, 2), nx = g.range(1, 3);
  std::vector<LinearConstraintPtr> cs;
  std::vector<std::shared_ptr<BasicLinearConstraint>> bcs;
  std::vector<std::vector<Piece>> vars;
  bool valid = true;
  int m = 0;
  for(int i = 0; i < nc; ++i)
  {
    auto vs = w.disjoint(g, g.range(1, 3), 0);
    std::vector<VariablePtr> xs;
    for(auto & q : vs) xs.push_back(q.p);
    vars.push_back(vs);
    Type t = g.coin(1, 12) ? static_cast<Type>(g.range(1, 3)) : Type::EQUAL;
    if(t != Type::EQUAL) valid = false;
    int mi = g.range(1, 3);
    m += mi;
    bcs.push_back(std::make_shared<BasicLinearConstraint>(mi, xs, t, RHS::AS_GIVEN));
    cs.push_back(bcs.back());
    g.logs("constraint ", ls::typeName(t), " ", mi, " rows on");
    for(auto & q : vs) g.logs(" ", q.name);
    g.log("");
  }
  std::vector<VariablePtr> x;
  std::vector<Piece> px;
  for(int i = 0; i < nx; ++i)
  {
    // usually one of the variables of the constraints
    auto & vs = vars[g.draw(vars.size())];
    Piece q = g.coin(3, 4) ? vs[g.draw(vs.size())] : genPiece(g, w.pool);
    bool overlap = false;
    for(auto & o : px) overlap = overlap || o.intersects(q);
    if(overlap && !g.coin(1, 6)) continue;
    if(overlap) valid = false;
    px.push_back(q);
    x.push_back(q.p);
    g.log("of ", q.name);
  }
  std::vector<bool> has(static_cast<size_t>(nc), false);
  int n = 0;
  for(auto & q : px)
  {
    n += q.size;
    bool in = false;
    for(size_t i = 0; i < vars.size(); ++i)
    {
      bool c = false;
      std::vector<bool> cover(static_cast<size_t>(w.N), false);
      for(auto & v : vars[i])
      {
        c = c || v.contains(q);
        for(int k : coords(*v.p)) cover[static_cast<size_t>(k)] = true;
      }
      if(!c)
      {
        bool all = true;
        for(int k : coords(*q.p)) all = all && cover[static_cast<size_t>(k)];
        if(all) throw pbt::Discard();
      }
      if(c) has[i] = true;
      in = in || c;
    }
    valid = valid && in;
  }
  for(bool h : has) valid = valid && h;
  int rank = g.coin() ? constant::fullRank : g.range(0, m);
  int r = rank == constant::fullRank ? m : rank;
  if(r > n) valid = false;
  g.log("rank ", r, valid ? ", valid" : ", invalid");
  std::unique_ptr<Substitution> s;
  auto make = [&]() {
    if(cs.size() == 1 && x.size() == 1) s = std::make_unique<Substitution>(cs[0], x[0], rank);
    else if(cs.size() == 1)
      s = std::make_unique<Substitution>(cs[0], x, rank);
    else if(x.size() == 1)
      s = std::make_unique<Substitution>(cs, x[0], rank);
    else
      s = std::make_unique<Substitution>(cs, static_cast<const std::vector<VariablePtr> &>(x), rank);
  };
  if(!valid)
  {
    REQUIRE_THROWS(make(), std::runtime_error, "invalid substitution");
    g.nontrivial();
    return;
  }
  make();
  REQUIRE(s->rank() == r && s->m() == m && s->constraints() == cs && s->variables() == x && s->isSimple() == (cs.size() == 1 && x.size() == 1));
  // The rank is checked
  MatrixXd A = MatrixXd::Zero(m, w.N);
  int k = 0;
  for(auto & c : bcs)
  {
    for(auto & v : c->variables())
    {
      MatrixXd B = g.bulk(c->size(), v->size());
      if(g.coin(1, 6)) B.row(g.range(0, c->size() - 1)).setZero();
      c->A(B, *v);
      A.block(k, w.start(*v), c->size(), v->size()) = B;
    }
    c->b(g.bulkVec(c->size()));
    k += c->size();
  }
  std::vector<int> cols;
  for(auto & v : x)
    for(int i : coords(*v)) cols.push_back(i);
  MatrixXd C = ls::columns(A, cols);
  int actual = rankOf(C);
  if(!ls::clearRank(C, actual)) throw pbt::Discard();
  g.log("actual rank ", actual);
  Substitutions S;
  S.add(*s);
  auto run = [&]() {
    S.finalize();
    S.updateSubstitutions();
  };
  if(actual != r)
  {
    g.tag("wrong rank");
    g.nontrivial();
    REQUIRE_THROWS(run(), std::runtime_error, "wrong rank");
  }
  else
    run();
}
