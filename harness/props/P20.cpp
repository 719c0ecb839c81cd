#include "vars.h"
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/abstract/OutputSelector.h>

using namespace tvm::graph::abstract;
using tvm::graph::internal::Inputs;

const pbt::Info pbt::info = {
    "P20",
    "history: up to 25 operations (single or multiple enabling/disabling, with known, unknown and statically disabled outputs, locking, unlocking) on one of 6 classes (one or several levels of "
    "selection, outputs added before, between and after the selectors, outputs disabled or re-enabled statically), all outputs being compared with the model after each operation, by query and by "
    "requesting them. linear: outputs of a linear constraint for all types and right-hand side conventions. Non-trivial: a history with an accepted disabling, an accepted enabling of a disabled output, "
    "and a refused operation (history); any (linear). Distinctness: the sequence of choices."};

namespace
{
class A : public Node<A>
{
public:
  SET_OUTPUTS(A, A0, A1, A2)
};
class B : public A
{
public:
  SET_OUTPUTS(B, B3, B4)
  DISABLE_OUTPUTS(A::Output::A1)
};
/** Not in the hierarchy of the others*/
class X : public Node<X>
{
public:
  SET_OUTPUTS(X, X0, X1)
};

struct Handle
{
  virtual ~Handle() = default;
  virtual void dis(const std::vector<int> & o) = 0;
  virtual void en(const std::vector<int> & o) = 0;
  virtual void disX() = 0;
  virtual void enX() = 0;
  virtual void lock() = 0;
  virtual void unlock() = 0;
  virtual bool locked() const = 0;
  virtual bool get(int o) const = 0; // by number
  virtual bool getE(int o) const = 0; // by enum
  virtual bool request(int o) = 0; // true if accepted
  std::vector<char> stat; // statically enabled
  std::vector<char> cur; // dynamically enabled at construction
};

template<typename T>
struct Exp : public T
{
  template<typename... E>
  void d(E... e)
  { this->disableOutput(e...); }
  template<typename... E>
  void e(E... e)
  { this->enableOutput(e...); }
};

/** Call f with the enum corresponding to output o, for hierarchy T*/
template<typename T, typename F>
void withE(int o, F && f)
{
  if constexpr(T::OutputSize > 0)
  {
    if(o >= static_cast<int>(T::OutputParent::OutputSize))
      f(static_cast<typename T::Output_>(o));
    else
      withE<typename T::OutputParent>(o, f);
  }
}

template<typename T, typename Base>
struct HandleT : public Handle
{
  std::shared_ptr<Exp<T>> p = std::make_shared<Exp<T>>();
  HandleT(std::vector<char> s, std::vector<char> c)
  {
    stat = s;
    cur = c;
  }
  void dis(const std::vector<int> & o) override
  {
    withE<Base>(o[0], [&](auto a) {
      if(o.size() == 1)
        p->d(a);
      else
        withE<Base>(o[1], [&](auto b) {
          if(o.size() == 2)
            p->d(a, b);
          else
            withE<Base>(o[2], [&](auto c) { p->d(a, b, c); });
        });
    });
  }
  void en(const std::vector<int> & o) override
  {
    withE<Base>(o[0], [&](auto a) {
      if(o.size() == 1)
        p->e(a);
      else
        withE<Base>(o[1], [&](auto b) {
          if(o.size() == 2)
            p->e(a, b);
          else
            withE<Base>(o[2], [&](auto c) { p->e(a, b, c); });
        });
    });
  }
  void disX() override { p->d(X::Output::X0); }
  void enX() override { p->e(X::Output::X1); }
  void lock() override { p->lock(); }
  void unlock() override { p->unlock(); }
  bool locked() const override { return p->isLocked(); }
  bool get(int o) const override { return p->isOutputEnabled(o); }
  bool getE(int o) const override
  {
    bool r = false;
    withE<Base>(o, [&](auto a) { r = p->isOutputEnabled(a); });
    return r;
  }
  bool request(int o) override
  {
    Inputs in;
    bool ok = true;
    withE<Base>(o, [&](auto a) {
      try
      {
        in.addInput(*p, a);
      }
      catch(const std::runtime_error &)
      {
        ok = false;
      }
    });
    return ok;
  }
};

// One level, on top of all outputs
class C1 : public OutputSelector<A>
{
};
// One level, with a static disabling below
class C2 : public OutputSelector<B>
{
public:
  C2() { disableOutput(B::Output::B3); }
};
// Outputs added above the selector, two levels
class M3 : public C2
{
public:
  SET_OUTPUTS(M3, M5, M6, M7)
};
class C3 : public OutputSelector<M3>
{
public:
  C3() { disableOutput(A::Output::A0, M3::Output::M6); }
};
// Two levels, outputs in the class itself
class C4 : public OutputSelector<C4, M3>
{
public:
  SET_OUTPUTS(C4, C8, C9)
  C4() { disableOutput(C4::Output::C9, M3::Output::M5, A::Output::A1); }
};
// The static disabling is cleared above
class M5 : public C1
{
public:
  SET_OUTPUTS(M5, N3)
  DISABLE_OUTPUTS(A::Output::A0, A::Output::A2)
};
class C5 : public OutputSelector<M5>
{
public:
  CLEAR_DISABLED_OUTPUTS()
};
// Static disabling above the selector, changed from below
class C6 : public OutputSelector<C6, B>
{
public:
  SET_OUTPUTS(C6, D5)
  DISABLE_OUTPUTS(B::Output::B4, D5)
private:
  static constexpr auto D5 = C6::Output::D5;
};

std::unique_ptr<Handle> make(int k)
{
  switch(k)
  {
    case 0:
      return std::make_unique<HandleT<C1, A>>(std::vector<char>{1, 1, 1}, std::vector<char>{1, 1, 1});
    case 1:
      return std::make_unique<HandleT<C2, B>>(std::vector<char>{1, 0, 1, 1, 1}, std::vector<char>{1, 1, 1, 0, 1});
    case 2:
      return std::make_unique<HandleT<C3, M3>>(std::vector<char>{1, 0, 1, 1, 1, 1, 1, 1}, std::vector<char>{0, 1, 1, 0, 1, 1, 0, 1});
    case 3:
      return std::make_unique<HandleT<C4, C4>>(std::vector<char>{1, 0, 1, 1, 1, 1, 1, 1, 1, 1}, std::vector<char>{1, 0, 1, 0, 1, 0, 1, 1, 1, 0});
    case 4:
      return std::make_unique<HandleT<C5, M5>>(std::vector<char>{1, 1, 1, 1}, std::vector<char>{1, 1, 1, 1});
    default:
      // static disabling of the most derived class only
      return std::make_unique<HandleT<C6, C6>>(std::vector<char>{1, 1, 1, 1, 0, 0}, std::vector<char>{1, 1, 1, 1, 1, 1});
  }
}
} // namespace

PROPERTY(history, 20000, 300000)
{
  int k = g.range(0, 5);
  auto h = make(k);
  auto other = make(k); // never modified
  auto init = h->cur;
  g.log("class ", k);
  int n = static_cast<int>(h->stat.size());
  bool locked = false, didDis = false, didEn = false, didRef = false;
  auto check = [&]() {
    REQUIRE(h->locked() == locked, "wrong lock");
    for(int o = 0; o < n; ++o)
    {
      bool e = h->stat[o] && h->cur[o];
      REQUIRE(h->get(o) == e, "output ", o, " is reported ", e ? "disabled" : "enabled");
      REQUIRE(h->getE(o) == e, "output ", o, " is reported ", e ? "disabled" : "enabled", " (enum)");
      REQUIRE(h->request(o) == e, "request of output ", o, " is ", e ? "refused" : "accepted");
      bool e2 = h->stat[o] && init[o];
      REQUIRE(other->get(o) == e2, "output ", o, " of another instance is affected");
    }
  };
  check();
  int steps = g.range(1, 25);
  for(int s = 0; s < steps; ++s)
  {
    int op = g.weighted({8, 8, 1, 1, 2, 3});
    if(op <= 1)
    {
      std::vector<int> os{g.range(0, n - 1)};
      if(g.coin(1, 3)) os.push_back(g.range(0, n - 1));
      if(os.size() == 2 && g.coin(1, 3)) os.push_back(g.range(0, n - 1));
      g.logs(op == 0 ? "disable" : "enable");
      for(int o : os) g.logs(" ", o);
      g.log("");
      bool refused = false;
      for(int o : os)
      {
        if(locked || (op == 1 && !h->stat[o]))
        {
          refused = true;
          break;
        }
        if(op == 0 && h->cur[o]) didDis = true;
        if(op == 1 && !h->cur[o]) didEn = true;
        h->cur[o] = op == 1;
      }
      bool thrown = false;
      try
      {
        op == 0 ? h->dis(os) : h->en(os);
      }
      catch(const std::runtime_error &)
      {
        thrown = true;
      }
      REQUIRE(thrown == refused, "the operation is ", thrown ? "refused" : "accepted");
      didRef = didRef || refused;
    }
    else if(op == 2)
    {
      REQUIRE_THROWS(h->disX(), std::runtime_error, "disabling the output of another class");
      didRef = true;
    }
    else if(op == 3)
    {
      REQUIRE_THROWS(h->enX(), std::runtime_error, "enabling the output of another class");
      didRef = true;
    }
    else if(op == 4)
    {
      h->lock();
      locked = true;
      g.log("lock");
    }
    else
    {
      h->unlock();
      locked = false;
      g.log("unlock");
    }
    check();
  }
  if(didDis && didEn && didRef) g.nontrivial();
}

PROPERTY(linear, 400, 2000)
{
  using namespace tvm;
  using constraint::RHS;
  using constraint::Type;
  using C = constraint::BasicLinearConstraint;
  int m = g.range(1, 3), n = g.range(1, 3);
  VariablePtr x = Space(n).createVariable("x");
  Type t = g.pick(std::vector<Type>{Type::EQUAL, Type::GREATER_THAN, Type::LOWER_THAN, Type::DOUBLE_SIDED});
  RHS r = t == Type::DOUBLE_SIDED ? g.pick(std::vector<RHS>{RHS::AS_GIVEN, RHS::OPPOSITE}) : g.pick(std::vector<RHS>{RHS::ZERO, RHS::AS_GIVEN, RHS::OPPOSITE});
  g.log("type ", static_cast<int>(t), " rhs ", static_cast<int>(r));
  Eigen::MatrixXd Am = g.bulk(m, n);
  Eigen::VectorXd b = g.bulkVec(m);
  std::shared_ptr<C> c;
  if(t == Type::DOUBLE_SIDED)
    c = std::make_shared<C>(Am, x, b, b, r);
  else if(r == RHS::ZERO)
    c = std::make_shared<C>(Am, x, t);
  else
    c = std::make_shared<C>(Am, x, b, t, r);
  bool e = t == Type::EQUAL && r != RHS::ZERO;
  bool l = (t == Type::GREATER_THAN || t == Type::DOUBLE_SIDED) && r != RHS::ZERO;
  bool u = (t == Type::LOWER_THAN || t == Type::DOUBLE_SIDED) && r != RHS::ZERO;
  REQUIRE(c->isOutputEnabled(C::Output::Value) && c->isOutputEnabled(C::Output::Jacobian), "value or jacobian disabled");
  REQUIRE(c->isOutputEnabled(C::Output::E) == e, "wrong selection of E");
  REQUIRE(c->isOutputEnabled(C::Output::L) == l, "wrong selection of L");
  REQUIRE(c->isOutputEnabled(C::Output::U) == u, "wrong selection of U");
  auto req = [&](auto o) {
    Inputs in;
    try
    {
      in.addInput(*c, o);
      return true;
    }
    catch(const std::runtime_error &)
    {
      return false;
    }
  };
  REQUIRE(req(C::Output::E) == e, "request of E");
  REQUIRE(req(C::Output::L) == l, "request of L");
  REQUIRE(req(C::Output::U) == u, "request of U");
  g.nontrivial();
}
