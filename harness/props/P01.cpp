#include "pbt.h"
#include <tvm/Range.h>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <map>
#include <memory>

using namespace tvm;
using pbt::Gen;

const pbt::Info pbt::info = {
    "P01",
    "history: random sequence of createVariable/dot/subvariable/primitive/basePrimitive/superVariable/duplicate/set/setZero/<</release on a "
    "pool of handles; after each operation every live handle is compared with a model holding one array of coordinates per (root, derivative "
    "number). Non-trivial: the history contains at least one subvariable, one derivative and one write, and 4 operations. space: random "
    "products of spaces. Distinctness: the sequence of choices."};

namespace
{
struct Tri
{
  int m, r, t;
  Space space() const { return Space(m, r, t); }
  Tri operator+(const Tri & o) const { return {m + o.m, r + o.r, t + o.t}; }
  bool operator<=(const Tri & o) const { return m <= o.m && r <= o.r && t <= o.t; }
  bool eucl() const { return m == r && m == t; }
};
using ::operator<<; // the one writing in variables
std::ostream & operator<<(std::ostream & s, const Tri & t) { return s << "(" << t.m << "," << t.r << "," << t.t << ")"; }
bool same(const Space & s, const Tri & t) { return s.size() == t.m && s.rSize() == t.r && s.tSize() == t.t; }

struct Root
{
  std::string name;
  Tri space;
  std::vector<Eigen::VectorXd> data; // per derivative number, created on demand
  const void * ptr; // the root variable
  Eigen::VectorXd & d(int k)
  {
    while(static_cast<int>(data.size()) <= k)
      data.push_back(Eigen::VectorXd::Zero(data.empty() ? space.r : space.t));
    return data[static_cast<size_t>(k)];
  }
};
/** A base primitive: a root or a subvariable of a root */
struct Base
{
  Root * root;
  Tri space, shift;
  bool sub;
  std::string name;
  std::map<int, const void *> ptr; // the known address of the k-th derivative
};
struct Handle
{
  VariablePtr p;
  std::shared_ptr<Base> b;
  int d;
  int off() const { return d == 0 ? b->shift.r : b->shift.t; }
  int size() const { return d == 0 ? b->space.r : b->space.t; }
};

Tri genTri(Gen & g, const Tri & max)
{
  // Euclidean spaces are more frequent
  int m = g.range(0, max.m);
  if(g.coin(1, 2) || max.eucl())
  {
    int e = std::min({m, max.r, max.t});
    return {e, e, e};
  }
  return {m, g.range(m, max.r), g.range(m, max.t)};
}

/** A sub-space and a shift for a variable in space s*/
bool genSub(Gen & g, const Tri & s, Tri & sub, Tri & shift)
{
  sub = genTri(g, s);
  if(sub.m == 0) // no empty variables
  {
    if(s.m == 0) return false;
    sub = {1, 1, 1};
  }
  Tri rest = {s.m - sub.m, s.r - sub.r, s.t - sub.t};
  int m = g.range(0, std::min({rest.m, rest.r, rest.t}));
  if(g.coin(1, 2) || s.eucl())
    shift = {m, m, m};
  else
    shift = {m, g.range(m, rest.r), g.range(m, rest.t)};
  return true;
}

struct Model
{
  Gen & g;
  std::vector<std::unique_ptr<Root>> roots;
  std::vector<Handle> hs;
  bool didSub = false, didDot = false, didWrite = false;
  int ops = 0;

  void link(const Handle & h)
  {
    auto it = h.b->ptr.find(h.d);
    if(it == h.b->ptr.end())
      h.b->ptr[h.d] = h.p.get();
    else
      REQUIRE(it->second == h.p.get(), "another variable was returned for the derivative ", h.d, " of ", h.b->name);
    h.b->root->d(h.d);
  }
  int add(Handle h)
  {
    REQUIRE(h.p != nullptr);
    link(h);
    hs.push_back(h);
    return static_cast<int>(hs.size()) - 1;
  }

  void check()
  {
    for(size_t i = 0; i < hs.size(); ++i)
    {
      const Handle & h = hs[i];
      const Variable & v = *h.p;
      const Base & b = *h.b;
      auto ref = b.root->d(h.d).segment(h.off(), h.size());
      REQUIRE(v.size() == h.size(), "size of h", i);
      REQUIRE(v.value().size() == h.size() && v.value() == ref, "value of h", i, " is ", v.value().transpose(), ", expected ", ref.transpose());
      REQUIRE(v.derivativeNumber() == h.d, "h", i);
      REQUIRE(v.isBasePrimitive() == (h.d == 0), "h", i);
      REQUIRE(same(v.space(), b.space), "space of h", i);
      REQUIRE(same(v.spaceShift(), b.shift), "spaceShift of h", i);
      REQUIRE(v.isEuclidean() == (h.d > 0 || b.space.eucl()), "h", i);
      REQUIRE(v.isSubvariable() == b.sub, "h", i);
      REQUIRE(v.isSuperVariable() == !b.sub, "h", i);
      REQUIRE(v.subvariableRange() == Range(h.off(), h.size()), "subvariableRange of h", i);
      REQUIRE(v.tSubvariableRange() == Range(b.shift.t, b.space.t), "tSubvariableRange of h", i);
      if(h.d == 0) REQUIRE(v.name() == b.name, "name of h", i, " is ", v.name(), " expected ", b.name);
      REQUIRE(v.basePrimitive()->derivativeNumber() == 0, "h", i);
      REQUIRE(v.superVariable()->isSuperVariable(), "h", i);
      REQUIRE(v.superVariable()->derivativeNumber() == h.d, "h", i);
      for(size_t j = 0; j < hs.size(); ++j)
      {
        const Handle & k = hs[j];
        const Variable & w = *k.p;
        bool sameSuper = h.b->root == k.b->root && h.d == k.d;
        int a0 = h.off(), a1 = a0 + h.size(), b0 = k.off(), b1 = b0 + k.size();
        // empty variables are left out: their containment is a matter of convention.
        if(h.size() > 0 && k.size() > 0)
        {
          REQUIRE(v.contains(w) == (sameSuper && a0 <= b0 && b1 <= a1), "h", i, " contains h", j);
          REQUIRE(v.intersects(w) == (sameSuper && a0 < b1 && b0 < a1), "h", i, " intersects h", j);
          REQUIRE((v == w) == (sameSuper && a0 == b0 && a1 == b1), "h", i, " == h", j);
          REQUIRE((v != w) == !(v == w), "h", i, " != h", j);
        }
        REQUIRE(v.isSuperVariableOf(w) == (sameSuper && !b.sub && k.b->sub), "h", i, " isSuperVariableOf h", j);
        REQUIRE(v.isDerivativeOf(w) == (h.b == k.b && h.d > k.d), "h", i, " isDerivativeOf h", j);
        REQUIRE(v.isPrimitiveOf(w) == (h.b == k.b && h.d < k.d), "h", i, " isPrimitiveOf h", j);
      }
    }
  }

  void createRoot()
  {
    Tri s;
    switch(g.weighted({4, 2, 1, 1}))
    {
      case 0: { int n = g.range(1, 6); s = {n, n, n}; break; }
      case 1: { int m = g.range(1, 4); s = {m, m + g.range(0, 2), m + g.range(0, 2)}; break; }
      case 2: s = {3, 4, 3}; break;
      default: s = {6, 7, 6};
    }
    auto r = std::make_unique<Root>();
    r->name = "r" + std::to_string(roots.size());
    r->space = s;
    g.log("h", hs.size(), " = Space", s, ".createVariable(", r->name, ")");
    VariablePtr p = s.space().createVariable(r->name);
    r->ptr = p.get();
    auto b = std::make_shared<Base>(Base{r.get(), s, {0, 0, 0}, false, r->name, {}});
    roots.push_back(std::move(r));
    add({p, b, 0});
  }

  std::shared_ptr<Base> baseOfRoot(Root * r)
  {
    for(auto & h : hs)
      if(h.b->root == r && !h.b->sub) return h.b;
    return nullptr;
  }

  void step()
  {
    ++ops;
    if(hs.empty())
    {
      createRoot();
      return;
    }
    int i = g.range(0, static_cast<int>(hs.size()) - 1);
    Handle h = hs[static_cast<size_t>(i)];
    int op = g.weighted({1, 4, 5, 4, 2, 2, 2, 1, 1, 4, 1, 1});
    if(hs.size() >= 10 && op <= 8) op = 9; // keep the pool small
    switch(op)
    {
      case 0:
        if(roots.size() < 3) createRoot();
        break;
      case 1:
      {
        int n = g.range(1, 3);
        bool autoName = g.coin(1, 4);
        if(h.d + n > 5) break;
        g.log("h", hs.size(), " = dot(h", i, ", ", n, autoName ? ", autoName)" : ")");
        didDot = true;
        add({dot(h.p, n, autoName), h.b, h.d + n});
        break;
      }
      case 2:
      {
        Tri s, sh;
        if(!genSub(g, h.b->space, s, sh)) break;
        bool autoName = g.coin(1, 2);
        std::string name = "s" + std::to_string(ops);
        g.log("h", hs.size(), " = h", i, "->subvariable(", s, autoName ? ", " : ", \"" + name + "\", ", sh, ")");
        Tri shift = h.b->shift + sh;
        if(autoName)
          name = h.b->root->name + "[" + std::to_string(shift.r) + ":" + std::to_string(shift.r + s.r - 1) + "]";
        auto b = std::make_shared<Base>(Base{h.b->root, s, shift, true, name, {}});
        VariablePtr p = autoName ? h.p->subvariable(s.space(), sh.space()) : h.p->subvariable(s.space(), name, sh.space());
        didSub = true;
        add({p, b, h.d});
        break;
      }
      case 3: // writes
      {
        didWrite = true;
        int n = h.size();
        auto ref = h.b->root->d(h.d).segment(h.off(), n);
        switch(g.range(0, 5))
        {
          case 0:
          {
            Eigen::VectorXd x = g.bulkVec(n);
            g.log("h", i, "->set(", x.transpose(), ")");
            h.p->set(x);
            ref = x;
            break;
          }
          case 1:
            if(n == 0) break;
            {
              int k = g.range(0, n - 1);
              double x = g.real();
              g.log("h", i, "->set(", k, ", ", x, ")");
              h.p->set(k, x);
              ref[k] = x;
              break;
            }
          case 2:
          {
            int k = g.range(0, n);
            int l = g.range(0, n - k);
            Eigen::VectorXd x = g.bulkVec(l);
            if(k == n && l == 0) k = 0;
            g.log("h", i, "->set(", k, ", ", l, ", ", x.transpose(), ")");
            h.p->set(k, l, x);
            ref.segment(k, l) = x;
            break;
          }
          case 3:
            g.log("h", i, "->setZero()");
            h.p->setZero();
            ref.setZero();
            break;
          case 4:
          {
            if(n == 0) break;
            Eigen::VectorXd x = g.bulkVec(n);
            g.log("h", i, " << ", x.transpose());
            h.p << x;
            ref = x;
            break;
          }
          default:
          {
            if(n == 0) break;
            Eigen::VectorXd x = g.bulkVec(n);
            g.log("h", i, " << comma list ", x.transpose());
            {
              auto c = (h.p << x[0]);
              for(int k = 1; k < n; ++k) c, x[k];
            }
            ref = x;
          }
        }
        break;
      }
      case 4:
      {
        if(h.d == 0)
        {
          REQUIRE_THROWS(h.p->primitive(), std::exception);
          break;
        }
        if(h.d >= 2 && g.coin())
        {
          g.log("h", hs.size(), " = h", i, "->primitive<2>()");
          add({h.p->primitive<2>(), h.b, h.d - 2});
        }
        else
        {
          g.log("h", hs.size(), " = h", i, "->primitive()");
          add({h.p->primitive(), h.b, h.d - 1});
        }
        break;
      }
      case 5:
        g.log("h", hs.size(), " = h", i, "->basePrimitive()");
        add({h.p->basePrimitive(), h.b, 0});
        break;
      case 6:
      {
        g.log("h", hs.size(), " = h", i, "->superVariable()");
        VariablePtr p = h.p->superVariable();
        auto b = h.b->sub ? baseOfRoot(h.b->root) : h.b;
        if(!b) b = std::make_shared<Base>(Base{h.b->root, h.b->root->space, {0, 0, 0}, false, h.b->root->name, {{0, h.b->root->ptr}}});
        add({p, b, h.d});
        break;
      }
      case 7:
      {
        bool named = g.coin();
        if(roots.size() >= 4) break;
        // The duplicate is a new root
        auto r = std::make_unique<Root>();
        r->name = named ? "dup" + std::to_string(roots.size()) : h.b->name + "'";
        r->space = h.b->space;
        r->d(h.d) = h.b->root->d(h.d).segment(h.off(), h.size());
        g.log("h", hs.size(), " = h", i, "->duplicate(", named ? r->name : "", ")");
        VariablePtr p = named ? h.p->duplicate(r->name) : h.p->duplicate();
        r->ptr = p->basePrimitive().get();
        auto b = std::make_shared<Base>(Base{r.get(), h.b->space, {0, 0, 0}, false, r->name, {{0, r->ptr}}});
        roots.push_back(std::move(r));
        add({p, b, h.d});
        break;
      }
      case 8:
        g.log("h", hs.size(), " = h", i, "->shared_from_this()");
        add({h.p->shared_from_this(), h.b, h.d});
        break;
      case 9:
        g.log("release h", i, " (h", hs.size() - 1, " takes its number)");
        h.p.reset();
        std::swap(hs[static_cast<size_t>(i)], hs.back());
        hs.pop_back();
        break;
      case 10: // refused operations
      {
        Tri s = h.b->space;
        int k = g.range(0, 2);
        if(k == 0) s.m = s.r = s.t = std::max({s.m, s.r, s.t}) + 1;
        Tri sh{0, 0, 0};
        if(k == 1) sh = {1, 1, 1};
        if(k == 2) sh = {0, 1, 0};
        g.log("invalid subvariable(", s, ", ", sh, ") of h", i);
        REQUIRE_THROWS((void)h.p->subvariable(s.space(), sh.space()), std::exception);
        REQUIRE_THROWS((void)h.p->subvariable(s.space(), "bad", sh.space()), std::exception);
        break;
      }
      default:
      {
        int n = h.size();
        g.log("invalid writes on h", i);
        REQUIRE_THROWS(h.p->set(Eigen::VectorXd::Ones(n + 1)), std::exception);
        if(n) REQUIRE_THROWS(h.p->set(Eigen::VectorXd::Ones(n - 1)), std::exception);
        REQUIRE_THROWS(h.p->set(n, 7.), std::exception);
        REQUIRE_THROWS(h.p->set(-1, 7.), std::exception);
        REQUIRE_THROWS(h.p->set(1, n, Eigen::VectorXd::Ones(n)), std::exception);
        if(n > 1) REQUIRE_THROWS(h.p->set(0, 1, Eigen::VectorXd::Ones(2)), std::exception);
      }
    }
    check();
  }
};
} // namespace

PROPERTY(history, 150000, 1500000)
{
  Model m{g};
  int n = g.range(2, 40);
  for(int i = 0; i < n; ++i) m.step();
  if(m.didSub) g.tag("subvariable");
  if(m.didDot) g.tag("derivative");
  if(m.didSub && m.didDot && m.didWrite && n >= 4) g.nontrivial();
}

PROPERTY(space, 2000, 20000)
{
  auto tri = [&] {
    int m = g.range(0, 4);
    return Tri{m, m + g.range(0, 2), m + g.range(0, 2)};
  };
  Tri a = tri(), b = tri(), c = tri();
  g.log(a, b, c);
  Space A = a.space(), B = b.space(), C = c.space();
  REQUIRE(same(A * B, a + b));
  REQUIRE((A * B) * C == A * (B * C));
  REQUIRE((A * B).isEuclidean() == (a.eucl() && b.eucl()));
  REQUIRE(A.isEuclidean() == a.eucl());
  REQUIRE((A <= B) == (a <= b));
  REQUIRE((A == B) == (a.m == b.m && a.r == b.r && a.t == b.t));
  REQUIRE((A != B) == !(A == B));
  REQUIRE(A <= A * B);
  Space so3(Space::Type::SO3), se3(Space::Type::SE3);
  REQUIRE(same(so3, Tri{3, 4, 3}) && so3.type() == Space::Type::SO3 && same(se3, Tri{6, 7, 6}) && se3.type() == Space::Type::SE3);
  REQUIRE(same(A, a) && same(Space(a.m), Tri{a.m, a.m, a.m}) && same(Space(a.m, a.r), Tri{a.m, a.r, a.m}));
  REQUIRE(Space(a.m).isEuclidean() && Space(a.m, a.r).isEuclidean() == (a.m == a.r));
  Space e(Space::Type::Euclidean, b.r);
  REQUIRE(same(e, Tri{b.r, b.r, b.r}) && e.type() == Space::Type::Euclidean && e.isEuclidean() && e == Space(b.r));
  REQUIRE_THROWS(Space(Space::Type::Unspecified, b.r), std::runtime_error, "a space of unspecified type and size");
  REQUIRE(e.createVariable("e")->size() == b.r);
  REQUIRE(same(A * so3, a + Tri{3, 4, 3}));
  REQUIRE(same(se3 * A, a + Tri{6, 7, 6}));
  REQUIRE(!(A * so3).isEuclidean() && !(se3 * A).isEuclidean());
  VariablePtr v = (A * so3).createVariable("v");
  REQUIRE(v->size() == a.r + 4);
  REQUIRE(dot(v)->size() == a.t + 3);
  if(a.m && b.m && !a.eucl()) g.nontrivial();
}
