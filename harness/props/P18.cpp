#include "lsproblem.h"
#include "td.h"
#include <set>
#include <tvm/exception/exceptions.h>
#include <tvm/hint/Substitution.h>

using namespace ls;

const pbt::Info pbt::info = {
    "P18",
    "histories: up to 40 operations (additions of new, shared, previously removed tasks, removals given the task of the user or of the problem, with or without another owner, refused additions, additions and removals of substitutions, "
    "construction from another problem, destruction of problems, changes of variables, functions and weights, updates) on up to 3 control problems, linearized or not, whose tasks share up to 4 functions counting their updates. "
    "After each operation the lists of tasks and constraints are compared with a model, after each update the constraints are compared with a direct computation. "
    "shared: the same with up to 3 linearized problems sharing tasks and resolved by up to 2 shared schemes, with comparison of the problems received by the solver. "
    "Non-trivial: an update (or a resolution) of a problem after a removal, with a task shared between problems. Distinctness: the sequence of choices."};

namespace
{
/** A function without the outputs necessary to second order task dynamics.*/
class PartialFun : public QuadFun
{
public:
  DISABLE_OUTPUTS(Output::NormalAcceleration, Output::JDot)
  explicit PartialFun(const QuadFun & q) : QuadFun(list(q.variables()), q.A, q.Q, q.b) {}
  static std::vector<VariablePtr> list(const VariableVector & v)
  {
    std::vector<VariablePtr> r;
    for(const auto & x : v) r.push_back(x);
    return r;
  }
};

struct Fn
{
  QuadFunPtr f;
  std::vector<Piece> x;
  bool linear = false, partial = false;
  int nJ = 0, nV = 0, nVel = 0, nN = 0, nJd = 0;
  void snapshot()
  {
    nJ = f->nJacobian;
    nV = f->nValue;
    nVel = f->nVelocity;
    nN = f->nNormalAcceleration;
    nJd = f->nJDot;
  }
};
using FnPtr = std::shared_ptr<Fn>;

struct MTask
{
  FnPtr fn;
  Type type;
  std::shared_ptr<TD> td;
  VectorXd l, u;
  int priority = 0;
  TaskWithRequirementsPtr tr; // null when only the problems own it
  const TaskWithRequirements * raw = nullptr;
  std::string name;
};
using MTaskPtr = std::shared_ptr<MTask>;

struct MSub
{
  MTaskPtr task;
  VariablePtr x;
};

struct MProblem
{
  std::unique_ptr<ControlProblem> pb;
  LinearizedControlProblem * lin = nullptr;
  std::vector<MTaskPtr> tasks;
  std::vector<MSub> subs;
  std::map<const TaskWithRequirements *, LinearConstraintPtr> constraints;
  bool removed = false; // a removal occurred
};

bool has(const MProblem & p, const MTaskPtr & t) { return std::find(p.tasks.begin(), p.tasks.end(), t) != p.tasks.end(); }

void checkStructure(const MProblem & p, const std::vector<MTaskPtr> & all)
{
  REQUIRE(p.pb->size() == static_cast<int>(p.tasks.size()), "size");
  REQUIRE(p.pb->tasks().size() == p.tasks.size(), "number of tasks");
  for(size_t i = 0; i < p.tasks.size(); ++i)
  {
    REQUIRE(p.pb->tasks()[i].get() == p.tasks[i]->raw, "task ", i);
    REQUIRE(p.pb->tasks()[i]->task.function() == p.tasks[i]->fn->f, "function of task ", i);
  }
  if(!p.lin) return;
  REQUIRE(p.lin->constraints().size() == p.tasks.size(), "number of constraints ", p.lin->constraints().size(), ", for ", p.tasks.size(), " tasks");
  REQUIRE(p.lin->constraintMap().size() == p.tasks.size(), "number of elements in the map of constraints");
  std::set<const Variable *> vars;
  auto cs = p.lin->constraints();
  for(auto & t : p.tasks)
  {
    auto c = p.lin->constraint(*t->raw);
    REQUIRE(c == p.constraints.at(t->raw), "the constraint of a task changed");
    REQUIRE(p.lin->constraintNoThrow(*t->raw) == c);
    REQUIRE(c->type() == t->type && c->size() == t->fn->f->size());
    const auto & cr = p.lin->constraintWithRequirements(*t->raw);
    REQUIRE(cr.constraint == c && cr.requirements.get() == &t->raw->requirements);
    auto on = p.lin->constraintWithRequirementsNoThrow(*t->raw);
    REQUIRE(on.has_value() && on->get().constraint == c);
    int n = 0;
    for(auto & k : cs) n += k.constraint == c;
    REQUIRE(n == 1, "a constraint appears ", n, " times in constraints()");
    REQUIRE(c->variables().numberOfVariables() == static_cast<int>(t->fn->x.size()), "variables of a constraint");
    for(auto & q : t->fn->x)
    {
      VariablePtr x = t->td->order() ? dot(q.p, t->td->order()) : q.p;
      REQUIRE(c->variables().contains(*x), "variable ", x->name(), " of a constraint");
    }
  }
  for(auto & t : all)
  {
    if(has(p, t) || !t->tr) continue;
    REQUIRE(!p.lin->constraintNoThrow(*t->raw), "constraint for a task which is not in the problem");
    REQUIRE(!p.lin->constraintWithRequirementsNoThrow(*t->raw).has_value(), "constraint for a task which is not in the problem");
    REQUIRE_THROWS(p.lin->constraint(*t->raw), std::exception, "");
    REQUIRE_THROWS(p.lin->constraintWithRequirements(*t->raw), std::exception, "");
  }
  const auto & subs = p.lin->substitutions();
  REQUIRE(subs.substitutions().size() == p.subs.size(), "number of substitutions");
  for(size_t i = 0; i < p.subs.size(); ++i)
  {
    const auto & s = subs.substitutions()[i];
    REQUIRE(s.constraints().size() == 1 && s.constraints()[0] == p.constraints.at(p.subs[i].task->raw), "constraint of a substitution");
    REQUIRE(s.variables().size() == 1 && *s.variables()[0] == *p.subs[i].x, "variable of a substitution");
  }
  for(auto & t : p.tasks)
  {
    bool used = false;
    for(auto & s : p.subs) used = used || s.task == t;
    REQUIRE(subs.uses(p.constraints.at(t->raw)) == used, "use of a constraint by the substitutions");
  }
  // all the variables
  VariableVector v = p.lin->variables();
  VectorXd count;
  int total = 0;
  std::set<std::pair<const Variable *, int>> coords, expected;
  for(const auto & x : v)
  {
    total += x->size();
    for(int i = 0; i < x->size(); ++i) coords.insert({x->superVariable().get(), x->subvariableRange().start + i});
  }
  for(auto & t : p.tasks)
    for(auto & q : t->fn->x)
    {
      VariablePtr x = t->td->order() ? dot(q.p, t->td->order()) : q.p;
      for(int i = 0; i < x->size(); ++i) expected.insert({x->superVariable().get(), x->subvariableRange().start + i});
    }
  REQUIRE(coords == expected, "variables of the problem");
  REQUIRE(total == static_cast<int>(coords.size()), "duplicated variables in the problem");
}

/** Check that the constraint of t in the problem is up to date*/
void checkConstraint(World & w, const MTask & t, const constraint::abstract::LinearConstraint & c)
{
  const QuadFun & f = *t.fn->f;
  VectorXd x(f.A.cols()), v(f.A.cols());
  int s = 0;
  for(auto & q : t.fn->x)
  {
    x.segment(s, q.size) = q.p->value();
    v.segment(s, q.size) = dot(q.p)->value();
    s += q.size;
  }
  int d = t.td->order();
  MatrixXd J = f.jac(x), D = MatrixXd::Zero(f.size(), w.N);
  s = 0;
  for(auto & q : t.fn->x)
  {
    D.middleCols(w.start(q, q.d + d), q.size) += J.middleCols(s, q.size);
    s += q.size;
  }
  REQUIRE_CLOSE(w.dense(c), D, "jacobian of ", t.name);
  VectorXd F = f.val(x), Fd = J * v, na = d == 2 ? f.nacc(v) : VectorXd::Zero(f.size()).eval();
  auto rhs = [&](const VectorXd & r) -> VectorXd { return t.td->value(r, F, Fd, f.b) - na; };
  if(t.type == Type::EQUAL) REQUIRE_CLOSE(c.e(), rhs(t.l), "right-hand side of ", t.name);
  if(t.type == Type::GREATER_THAN || t.type == Type::DOUBLE_SIDED) REQUIRE_CLOSE(c.l(), rhs(t.l), "lower bound of ", t.name);
  if(t.type == Type::LOWER_THAN) REQUIRE_CLOSE(c.u(), rhs(t.l), "upper bound of ", t.name);
  if(t.type == Type::DOUBLE_SIDED) REQUIRE_CLOSE(c.u(), rhs(t.u), "upper bound of ", t.name);
}
struct Kept
{
  LinearConstraintPtr c;
  Type type;
  VectorXd l, u, e;
  void read()
  {
    if(type == Type::EQUAL) e = c->e();
    if(type == Type::GREATER_THAN || type == Type::DOUBLE_SIDED) l = c->l();
    if(type == Type::LOWER_THAN || type == Type::DOUBLE_SIDED) u = c->u();
  }
};
} // namespace

PROPERTY(histories, 25000, 800000)
{
  World w;
  w.generate(g, 3, 3, !g.coin(1, 4), 2, 3);
  w.setAll(g);
  std::vector<FnPtr> fns;
  int nf = g.range(1, 4);
  for(int i = 0; i < nf; ++i)
  {
    auto fn = std::make_shared<Fn>();
    for(auto & q : w.disjoint(g, g.range(1, 3), 1))
      if(q.p->isEuclidean()) fn->x.push_back(q);
    if(fn->x.empty()) continue;
    std::vector<VariablePtr> xs;
    for(auto & q : fn->x) xs.push_back(q.p);
    fn->linear = g.coin();
    int m = g.coin() ? fn->x[0].size : g.range(1, 3);
    fn->f = genQuad(g, m, xs, fn->linear);
    fn->partial = g.coin(1, 4);
    if(fn->partial) fn->f = std::make_shared<PartialFun>(*fn->f);
    g.logs("function ", fns.size(), " size ", m, " of");
    for(auto & q : fn->x) g.logs(" ", q.name);
    g.log(fn->linear ? " linear" : "", fn->partial ? " without second order outputs" : "");
    fns.push_back(fn);
  }
  if(fns.empty()) throw pbt::Discard();
  std::vector<VariablePtr> refVars{w.var(0, 3)};
  std::vector<MTaskPtr> tasks;
  std::vector<MProblem> pbs;
  std::vector<Kept> kept;
  int nTask = 0;

  auto add = [&](MProblem & p, MTaskPtr t) {
    p.tasks.push_back(t);
    if(p.lin) p.constraints[t->raw] = p.lin->constraint(*t->raw);
  };
  auto newProblem = [&]() {
    MProblem p;
    if(g.coin(1, 4))
    {
      p.pb = std::make_unique<ControlProblem>();
      g.log("new control problem");
    }
    else
    {
      MProblem * from = pbs.empty() || g.coin() ? nullptr : &pbs[g.draw(pbs.size())];
      std::unique_ptr<LinearizedControlProblem> l;
      bool possible = true;
      if(from)
        for(auto & t : from->tasks)
          possible = possible && !((t->td->order() == 0 && !t->fn->linear) || (t->td->order() == 2 && t->fn->partial));
      if(from && possible)
      {
        g.log("new linearized problem, from ", from - pbs.data());
        l = std::make_unique<LinearizedControlProblem>(*from->pb);
      }
      else
      {
        g.log("new linearized problem");
        l = std::make_unique<LinearizedControlProblem>();
      }
      p.lin = l.get();
      p.pb = std::move(l);
      if(from && possible)
        for(auto & t : from->tasks) add(p, t);
    }
    pbs.push_back(std::move(p));
  };
  auto shared = [&](const MTaskPtr & t) {
    int n = 0;
    for(auto & p : pbs) n += has(p, t);
    return n;
  };
  auto update = [&](MProblem & p) {
    g.log("update ", &p - pbs.data());
    for(auto & f : fns) f->snapshot();
    std::vector<int> nRef;
    for(auto & t : tasks) nRef.push_back(t->td->ref ? t->td->ref->nValue : 0);
    if(p.lin && g.coin()) p.lin->update();
    else
      p.pb->update();
    bool sh = false;
    for(auto & t : p.tasks)
    {
      if(p.lin) checkConstraint(w, *t, *p.constraints.at(t->raw));
      sh = sh || shared(t) > 1;
    }
    for(auto & f : fns)
    {
      bool used = false;
      for(auto & t : p.tasks) used = used || (p.lin && t->fn == f);
      int most = used ? 1 : 0;
      REQUIRE(f->f->nJacobian - f->nJ <= most && f->f->nValue - f->nV <= most && f->f->nVelocity - f->nVel <= most && f->f->nNormalAcceleration - f->nN <= most && f->f->nJDot - f->nJd <= most,
              used ? "a function was updated several times" : "a function which is not used by the problem was updated", " (function ", &f - fns.data(), ")");
    }
    for(size_t i = 0; i < tasks.size(); ++i)
    {
      if(!tasks[i]->td->ref) continue;
      int n = tasks[i]->td->ref->nValue - nRef[i];
      REQUIRE(n <= (p.lin && has(p, tasks[i]) ? 1 : 0), "the reference of ", tasks[i]->name, " was updated ", n, " times");
    }
    for(auto & k : kept)
    {
      Kept now = k;
      now.read();
      REQUIRE(now.l == k.l && now.u == k.u && now.e == k.e, "the constraint of a removed task was updated");
    }
    if(p.removed && sh) g.nontrivial();
  };
  auto genTaskOf = [&](FnPtr fn, TK k) {
    auto t = std::make_shared<MTask>();
    t->fn = fn;
    int m = fn->f->size();
    t->td = std::make_shared<TD>(genTD(g, k, m, refVars));
    t->type = g.pick(std::vector<Type>{Type::EQUAL, Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED});
    t->l = g.bulkVec(m);
    t->u = t->l + g.bulkVec(m).cwiseAbs();
    t->priority = g.range(0, 2);
    t->name = "task " + std::to_string(nTask++) + " (function " + std::to_string(std::find(fns.begin(), fns.end(), fn) - fns.begin()) + ", " + typeName(t->type) + ", " + tkName(k) + ")";
    return t;
  };
  auto makeTask = [&](MTask & t) { return t.type == Type::DOUBLE_SIDED ? Task(t.fn->f, t.type, *t.td->td, t.l, t.u) : Task(t.fn->f, t.type, *t.td->td, t.l); };

  newProblem();
  newProblem();
  int n = g.range(5, 40);
  for(int k = 0; k < n; ++k)
  {
    if(pbs.empty()) newProblem();
    size_t ip = g.draw(pbs.size());
    MProblem & p = pbs[ip];
    switch(g.weighted({6, 5, 3, 1, 1, 1, 3, 1, 1, 2, 1, 5}))
    {
      case 0: // new task
      {
        auto fn = fns[g.draw(fns.size())];
        TK kind = static_cast<TK>(g.range(1, 9));
        if(orderOf(kind) == 0 && !fn->linear) kind = TK::P;
        if(orderOf(kind) == 2 && fn->partial) kind = TK::P;
        auto t = genTaskOf(fn, kind);
        g.log("add to ", ip, " ", t->name);
        Task task = makeTask(*t);
        SolvingRequirements req(PriorityLevel(t->priority), Weight(2.));
        t->tr = p.lin ? p.lin->add(task, req) : p.pb->add(task, req);
        t->raw = t->tr.get();
        tasks.push_back(t);
        add(p, t);
        break;
      }
      case 1: // existing task
      {
        if(tasks.empty()) break;
        auto t = tasks[g.draw(tasks.size())];
        if(!t->tr || has(p, t)) break;
        g.log("add to ", ip, " existing ", t->name);
        if(p.lin) p.lin->add(t->tr);
        else
          p.pb->add(t->tr);
        add(p, t);
        break;
      }
      case 2: // removal
      {
        if(p.tasks.empty()) break;
        auto t = p.tasks[g.draw(p.tasks.size())];
        g.log("remove from ", ip, " ", t->name);
        if(p.lin && g.coin(1, 3))
        {
          Kept c{p.constraints.at(t->raw), t->type, {}, {}, {}};
          c.read();
          if((c.l.size() == 0 || c.l.allFinite()) && (c.u.size() == 0 || c.u.allFinite()) && (c.e.size() == 0 || c.e.allFinite())) kept.push_back(c);
        }
        if(!t->tr) g.tag("removal by the only owner");
        if(p.lin) p.lin->remove(*t->raw);
        else
          p.pb->remove(*t->raw);
        p.tasks.erase(std::find(p.tasks.begin(), p.tasks.end(), t));
        p.constraints.erase(t->raw);
        p.subs.erase(std::remove_if(p.subs.begin(), p.subs.end(), [&](const MSub & s) { return s.task == t; }), p.subs.end());
        p.removed = true;
        if(!t->tr && !shared(t)) tasks.erase(std::find(tasks.begin(), tasks.end(), t));
        break;
      }
      case 3: // removal of a task not in the problem
      {
        if(tasks.empty()) break;
        auto t = tasks[g.draw(tasks.size())];
        if(!t->tr || has(p, t)) break;
        g.log("remove from ", ip, " absent ", t->name);
        if(p.lin) p.lin->remove(*t->tr);
        else
          p.pb->remove(*t->tr);
        break;
      }
      case 4: // the user forgets a task
      {
        if(tasks.empty()) break;
        size_t i = g.draw(tasks.size());
        g.log("forget ", tasks[i]->name);
        tasks[i]->tr = nullptr;
        if(!shared(tasks[i])) tasks.erase(tasks.begin() + static_cast<int>(i));
        break;
      }
      case 5: // refused task
      {
        if(!p.lin) break;
        auto fn = fns[g.draw(fns.size())];
        TK kind;
        if(fn->partial) kind = g.pick(std::vector<TK>{TK::PD, TK::Step2, TK::Ref2});
        else if(!fn->linear)
          kind = g.pick(std::vector<TK>{TK::Constant, TK::Ref0});
        else
          break;
        auto t = genTaskOf(fn, kind);
        g.log("add to ", ip, " invalid ", t->name);
        Task task = makeTask(*t);
        REQUIRE_THROWS(p.lin->add(task), std::runtime_error, "");
        g.tag("refused task");
        break;
      }
      case 6: // substitution
      {
        if(!p.lin || p.tasks.empty()) break;
        auto t = p.tasks[g.draw(p.tasks.size())];
        if(t->type != Type::EQUAL || !t->fn->linear) break;
        const auto & q = t->fn->x[g.draw(t->fn->x.size())];
        VariablePtr x = t->td->order() ? dot(q.p, t->td->order()) : q.p;
        if(q.size != t->fn->f->size()) break;
        // far from singularity
        int s = 0;
        for(auto & r : t->fn->x)
        {
          if(r.p == q.p) break;
          s += r.size;
        }
        MatrixXd A = t->fn->f->A.middleCols(s, q.size);
        Eigen::JacobiSVD<MatrixXd> svd(A);
        if(svd.singularValues()[q.size - 1] < .2) break;
        bool possible = true;
        for(auto & o : p.subs)
        {
          // another substitution using one of the variables of this constraint, or the opposite
          auto c1 = p.constraints.at(t->raw), c2 = p.constraints.at(o.task->raw);
          possible = possible && !c1->variables().intersects(*o.x) && !c2->variables().intersects(*x) && o.task != t;
        }
        if(!possible) break;
        g.log("substitute ", x->name(), " in ", ip, " with ", t->name);
        g.tag("substitution");
        p.lin->add(hint::Substitution(p.lin->constraint(*t->raw), x));
        p.subs.push_back({t, x});
        break;
      }
      case 7: // removal of a substitution
      {
        if(!p.lin || p.subs.empty()) break;
        size_t i = g.draw(p.subs.size());
        g.log("remove substitution ", i, " of ", ip);
        switch(g.range(0, 2))
        {
          case 0:
            p.lin->remove(hint::Substitution(p.lin->constraint(*p.subs[i].task->raw), p.subs[i].x));
            break;
          case 1:
            p.lin->remove(p.lin->substitutions().substitutions()[i]);
            break;
          case 2:
            p.lin->removeSubstitutionFor(*p.lin->constraint(*p.subs[i].task->raw));
            break;
        }
        p.subs.erase(p.subs.begin() + static_cast<int>(i));
        break;
      }
      case 8:
        if(pbs.size() < 3) newProblem();
        else
        {
          g.log("destroy ", ip);
          pbs.erase(pbs.begin() + static_cast<int>(ip));
          for(size_t i = tasks.size(); i-- > 0;)
            if(!tasks[i]->tr && !shared(tasks[i])) tasks.erase(tasks.begin() + static_cast<int>(i));
        }
        break;
      case 9: // new values
      {
        g.log("new values");
        if(g.coin()) w.setAll(g);
        auto fn = fns[g.draw(fns.size())];
        fn->f->b = g.bulkVec(fn->f->size());
        for(auto & t : tasks)
          if(t->td->ref && g.coin()) t->td->ref->b = g.bulkVec(t->fn->f->size());
        break;
      }
      case 10: // weights
      {
        if(tasks.empty()) break;
        auto t = tasks[g.draw(tasks.size())];
        if(!t->tr) break;
        g.log("new weight for ", t->name);
        t->tr->requirements.weight() = g.positive(2);
        if(g.coin()) t->tr->requirements.anisotropicWeight() = g.posVec(t->fn->f->size(), 2);
        break;
      }
      case 11:
        update(p);
        break;
    }
    for(auto & q : pbs) checkStructure(q, tasks);
  }
  for(auto & p : pbs) update(p);
  for(auto & q : pbs) checkStructure(q, tasks);
}

PROPERTY(shared, 20000, 600000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  std::vector<Scheme> schemes;
  int ns = g.range(1, 2);
  for(int i = 0; i < ns; ++i) schemes.push_back(genScheme(g));
  struct Pb
  {
    std::unique_ptr<LinearizedControlProblem> pb = std::make_unique<LinearizedControlProblem>();
    std::vector<LTaskPtr> tasks;
    std::map<size_t, bool> mayThrow; // by scheme
    bool removed = false;
  };
  std::vector<Pb> pbs(static_cast<size_t>(g.range(2, 3)));
  g.log(pbs.size(), " problems");
  std::vector<LTaskPtr> all;
  GenOptions o;
  o.maxPriority = 1;
  o.maxRows = 4;
  auto has = [](const Pb & p, const LTaskPtr & t) { return std::find(p.tasks.begin(), p.tasks.end(), t) != p.tasks.end(); };
  auto solve = [&](size_t ip, size_t i) {
    Pb & p = pbs[ip];
    Scheme & s = schemes[i];
    auto used = usedCoordinates(w, p.tasks);
    bool mayThrow = p.mayThrow[i];
    if(p.tasks.empty()) return;
    Canon e = expected(w, p.tasks, s.scalarization, s.autoDamping, used);
    if(!supported(s, e, p.tasks, used)) return;
    g.log("solve ", ip, " with ", i);
    p.mayThrow[i] = false;
    std::vector<int> map;
    try
    {
      map = solveAndMap(g, w, *p.pb, *s.s, used);
    }
    catch(const std::runtime_error & ex)
    {
      REQUIRE(mayThrow, "unexpected exception ", ex.what());
      map = solveAndMap(g, w, *p.pb, *s.s, used);
    }
    compareScaled(e, received(backend::state().last), map);
    bool sh = false;
    for(auto & t : p.tasks)
      for(auto & q : pbs) sh = sh || (&q != &p && has(q, t));
    if(sh && p.removed) g.nontrivial();
    w.setAll(g);
  };
  int n = g.range(6, 30);
  for(int k = 0; k < n; ++k)
  {
    size_t ip = g.draw(pbs.size());
    Pb & p = pbs[ip];
    switch(g.weighted({4, 6, 3, 2, 1, 5, 1, 1}))
    {
      case 0:
      {
        auto t = genTask(g, w, o);
        g.log("add to ", ip, " ", t->desc());
        t->tr = p.pb->add(*t->task, t->requirements());
        p.tasks.push_back(t);
        all.push_back(t);
        break;
      }
      case 1:
      {
        if(all.empty()) break;
        auto t = all[g.draw(all.size())];
        if(has(p, t)) break;
        g.log("add to ", ip, " existing ", t->desc());
        p.pb->add(t->tr);
        p.tasks.push_back(t);
        break;
      }
      case 2:
      {
        if(p.tasks.empty()) break;
        size_t i = g.draw(p.tasks.size());
        g.log("remove from ", ip, " ", p.tasks[i]->desc());
        p.pb->remove(*p.tasks[i]->tr);
        p.tasks.erase(p.tasks.begin() + static_cast<int>(i));
        p.removed = true;
        break;
      }
      case 3:
      {
        if(all.empty()) break;
        auto t = all[g.draw(all.size())];
        if(t->p == 0 && !g.coin(1, 4)) break;
        t->weight = g.positive(4);
        t->hasWeight = true;
        g.log("weight of ", t->desc());
        if(g.coin(1, 3))
          t->tr->requirements.weight() = Weight(t->weight);
        else
          t->tr->requirements.weight() = t->weight;
        if(t->p == 0)
          for(auto & q : pbs)
            if(has(q, t))
              for(size_t i = 0; i < schemes.size(); ++i) q.mayThrow[i] = true;
        break;
      }
      case 4:
        g.log("new values of the functions");
        for(auto & t : all) t->refill(g);
        break;
      case 5:
        solve(ip, g.draw(schemes.size()));
        break;
      case 6:
      {
        size_t i = g.draw(schemes.size());
        g.log("new scheme ", i);
        schemes[i] = genScheme(g);
        for(auto & q : pbs) q.mayThrow[i] = false;
        break;
      }
      case 7:
        g.log("destroy ", ip);
        p = Pb();
        break;
    }
  }
  for(size_t ip = 0; ip < pbs.size(); ++ip) solve(ip, g.draw(schemes.size()));
}
