#include "td.h"
#include <tvm/Task.h>
#include <tvm/constraint/internal/LinearizedTaskConstraint.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/graph/CallGraph.h>

using namespace vars;
using constraint::Type;
using constraint::internal::LinearizedTaskConstraint;

const pbt::Info pbt::info = {
    "P07",
    "task: a quadratic or linear function of 1 to 3 (sub)variables or derivatives, a task type, task dynamics of order 0 to 2, then up to 5 changes of the state or of "
    "the function followed by an update of the requested outputs. Non-trivial: the task dynamics are of order at least 1 and the function is not linear, "
    "or there is at least one subvariable, and the state was changed after the first update. Distinctness: the sequence of choices."};

PROPERTY(task, 80000, 800000)
{
  World w;
  w.generate(g, 3, 3, g.coin(4, 5), 2, 4);
  w.setAll(g);
  std::vector<Piece> ps;
  for(auto & q : w.disjoint(g, g.range(1, 3), 1))
    if(q.p->isEuclidean()) ps.push_back(q);
  if(ps.empty()) throw pbt::Discard();
  int m = g.range(1, 4);
  std::vector<VariablePtr> xs;
  bool sub = false;
  for(auto & q : ps)
  {
    xs.push_back(q.p);
    sub = sub || q.d || q.ne < w.pool.roots[static_cast<size_t>(q.root)].n();
  }
  Type t = g.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED});
  TK k = static_cast<TK>(g.range(0, 9));
  std::vector<VariablePtr> refVars{w.var(0, 3)};
  TD td = genTD(g, k, m, refVars);
  bool linear = orderOf(k) == 0 || g.coin(1, 3);
  bool basic = k == TK::None || (linear && g.coin());
  QuadFunPtr q = genQuad(g, m, xs, linear);
  std::shared_ptr<function::BasicLinearFunction> bf;
  FunctionPtr f = q;
  if(basic)
  {
    std::vector<MatrixXd> A;
    int s = 0;
    for(auto & x : xs)
    {
      A.push_back(q->A.middleCols(s, x->size()));
      s += x->size();
    }
    std::vector<MatrixConstRef> Ar(A.begin(), A.end());
    bf = std::make_shared<function::BasicLinearFunction>(Ar, xs, q->b);
    f = bf;
  }
  VectorXd l = g.bulkVec(m), u = l + g.bulkVec(m).cwiseAbs();
  g.logs("function of");
  for(auto & p : ps) g.logs(" ", p.name);
  g.log(linear ? " linear" : " quadratic", basic ? " basic" : "", ", size ", m, ", type ", static_cast<int>(t), ", dynamics ", tkName(k));

  if(!basic && !linear && orderOf(k) == 0) REQUIRE(false);
  if(g.coin(1, 20) && orderOf(k) == 0)
  {
    // order 0 is for linear functions only
    QuadFunPtr nl = genQuad(g, m, xs);
    REQUIRE_THROWS(LinearizedTaskConstraint(t == Type::DOUBLE_SIDED ? Task(nl, t, *td.td, l, u) : Task(nl, t, *td.td, l)), std::runtime_error);
    return;
  }

  Task task = t == Type::DOUBLE_SIDED ? Task(f, t, *td.td, l, u) : Task(f, t, *td.td, l);
  REQUIRE(task.type() == t && task.function() == f);
  auto c = std::make_shared<LinearizedTaskConstraint>(task);
  using O = LinearizedTaskConstraint::Output;
  using BO = tvm::internal::FirstOrderProvider::Output;
  bool L = t == Type::GREATER_THAN || t == Type::DOUBLE_SIDED, U = t == Type::LOWER_THAN || t == Type::DOUBLE_SIDED, E = t == Type::EQUAL;
  auto in = std::make_shared<graph::internal::Inputs>();
  bool askJ = g.coin(2, 3), askR = !askJ || g.coin(), askR2 = g.coin(), askV = g.coin(1, 3);
  if(askJ) in->addInput(c, BO::Jacobian);
  if(askV) in->addInput(c, BO::Value);
  if(askR && L) in->addInput(c, O::L);
  if((askR2 || t == Type::LOWER_THAN) && U) in->addInput(c, O::U);
  if(askR && E) in->addInput(c, O::E);
  g.log("requested: ", askJ ? "J " : "", askV ? "value " : "", askR ? "rhs " : "", askR2 ? "rhs2 " : "");
  graph::CallGraph gr;
  gr.add(in);
  gr.update();

  REQUIRE(c->size() == m && c->type() == t && c->rhs() == constraint::RHS::AS_GIVEN);
  REQUIRE(c->isOutputEnabled(O::L) == L && c->isOutputEnabled(O::U) == U && c->isOutputEnabled(O::E) == E);
  int d = orderOf(k);
  REQUIRE(c->variables().numberOfVariables() == static_cast<int>(xs.size()));
  for(size_t i = 0; i < xs.size(); ++i)
  {
    VariablePtr x = d ? dot(xs[i], d) : xs[i];
    REQUIRE(c->variables().contains(*x), "missing ", x->name());
    REQUIRE(c->linearIn(*x));
  }
  int n = g.range(1, 5);
  for(int it = 0; it < n; ++it)
  {
    if(it > 0)
    {
      if(g.coin(1, 5))
      {
        // change of the function
        VectorXd nb = g.bulkVec(m);
        MatrixXd nA = g.bulk(m, static_cast<int>(q->A.cols()));
        q->A = nA;
        q->b = nb;
        if(bf)
        {
          bf->b(nb);
          int s = 0;
          for(auto & x : xs)
          {
            bf->A(nA.middleCols(s, x->size()), *x);
            s += x->size();
          }
        }
      }
      else if(g.coin(1, 3))
      {
        Piece p = genPiece(g, w.pool, 3);
        p.p->set(g.bulkVec(p.size));
      }
      else
        w.setAll(g);
    }
    gr.execute();
    VectorXd x(q->A.cols()), v = x, xk = x; // value, velocity and derivative of order d of the variables
    VectorXd all = w.all();
    int s = 0;
    for(auto & p : ps)
    {
      VariablePtr px = p.p;
      x.segment(s, p.p->size()) = px->value();
      v.segment(s, p.p->size()) = dot(px)->value();
      xk.segment(s, p.p->size()) = all.segment(w.start(*(d ? dot(px, d) : px)), px->size());
      s += p.p->size();
    }
    MatrixXd J = q->jac(x), D = MatrixXd::Zero(m, w.N);
    s = 0;
    for(auto & p : ps)
    {
      Piece pd = w.pool.make(p.root, p.e0, p.ne, p.d + d);
      D.middleCols(w.start(pd), pd.size) = J.middleCols(s, pd.size);
      s += pd.size;
    }
    if(askJ || askV)
    {
      REQUIRE_CLOSE(w.dense(*c), D);
      for(int j = 0; j < 3; ++j)
      {
        Piece z = genPiece(g, w.pool, 4);
        bool cov = false;
        for(auto & p : ps) cov = cov || w.pool.make(p.root, p.e0, p.ne, p.d + d).contains(z);
        if(cov)
        {
          REQUIRE_CLOSE(c->jacobian(*z.p), D.middleCols(w.start(z), z.size), z.name);
        }
      }
    }
    if(askV)
    {
      REQUIRE_CLOSE(c->value(), J * xk);
    }
    VectorXd F = q->val(x), Fd = J * v, na = d == 2 ? q->nacc(v) : VectorXd::Zero(m).eval();
    auto rhs = [&](const VectorXd & r) -> VectorXd { return td.value(r, F, Fd, q->b) - na; };
    if(askR && L)
    {
      REQUIRE_CLOSE(c->l(), rhs(l));
    }
    if(askR && E)
    {
      REQUIRE_CLOSE(c->e(), rhs(l));
    }
    if(t == Type::LOWER_THAN)
    {
      REQUIRE_CLOSE(c->u(), rhs(l));
    }
    if(t == Type::DOUBLE_SIDED && askR2)
    {
      REQUIRE_CLOSE(c->u(), rhs(u));
    }
  }
  if(n > 1 && ((d >= 1 && !linear) || sub)) g.nontrivial();
}
