#include "vars.h"
#include <tvm/internal/RangeCounting.h>
#include <tvm/internal/VariableCountingVector.h>
#include <tvm/internal/VariableVectorPartition.h>
#include <algorithm>
#include <map>
#include <set>

using namespace vars;
using tvm::internal::RangeCounting;
using tvm::internal::VariableCountingVector;

const pbt::Info pbt::info = {
    "P03",
    "ranges: up to 40 additions/removals (also refused ones) of ranges in [-4, 12), both kinds of output being queried at random moments. "
    "variables: same with (sub)variables of 1 to 3 roots of possibly non-Euclidean spaces. partition: containers of disjoint variables "
    "iterated with the partition made by several containers. Non-trivial: the history has an overlap (count 2 or more) and an effective "
    "removal (ranges, variables), or the partition cuts a variable of the container (partition). Distinctness: the sequence of choices."};

namespace
{
/** Multiplicities over [lo, hi) plus the set of end points.*/
struct Count
{
  std::map<int, int> n; // multiplicity
  std::set<int> used;   // all end points ever used
  std::multiset<std::pair<int, int>> present; // ranges added and not yet removed
  bool exact = true;    // all removals were those of ranges present

  int at(int i) const
  {
    auto it = n.find(i);
    return it == n.end() ? 0 : it->second;
  }
  void add(int s, int d)
  {
    if(!d) return;
    for(int i = s; i < s + d; ++i) ++n[i];
    used.insert(s);
    used.insert(s + d);
    present.insert({s, d});
  }
  bool covered(int s, int d) const
  {
    for(int i = s; i < s + d; ++i)
      if(!at(i)) return false;
    return true;
  }
  void remove(int s, int d)
  {
    if(!d) return;
    for(int i = s; i < s + d; ++i) --n[i];
    used.insert(s);
    used.insert(s + d);
    auto it = present.find({s, d});
    if(it != present.end())
      present.erase(it);
    else
      exact = false;
  }
  /** Maximal runs, with optional mandatory boundaries*/
  std::vector<Range> runs() const
  {
    std::vector<Range> r;
    for(auto & [i, c] : n)
    {
      if(!c) continue;
      if(!r.empty() && r.back().end() == i)
        ++r.back().dim;
      else
        r.push_back({i, 1});
    }
    return r;
  }
  int max() const
  {
    int m = 0;
    for(auto & p : n) m = std::max(m, p.second);
    return m;
  }
};

std::string show(const std::vector<Range> & r)
{
  std::ostringstream s;
  for(auto & x : r) s << "[" << x.start << "," << x.end() << ")";
  return s.str();
}

void checkSplit(const Count & c, const std::vector<Range> & r)
{
  std::vector<Range> u;
  std::set<int> bounds;
  int last = -1000;
  for(const auto & x : r)
  {
    REQUIRE(x.dim > 0, "empty range in ", show(r));
    REQUIRE(x.start >= last, "not disjoint or not ordered: ", show(r));
    last = x.end();
    bounds.insert(x.start);
    bounds.insert(x.end());
    if(!u.empty() && u.back().end() == x.start)
      u.back().dim += x.dim;
    else
      u.push_back(x);
    for(int i = x.start; i < x.end(); ++i) REQUIRE(c.at(i) == c.at(x.start), "count changes at ", i, " within ", show(r));
  }
  REQUIRE(u == c.runs(), "union of ", show(r), " should be ", show(c.runs()));
  for(int b : bounds) REQUIRE(c.used.count(b), "spurious boundary ", b, " in ", show(r));
  if(c.exact)
    for(auto & p : c.present)
      REQUIRE(bounds.count(p.first) && bounds.count(p.first + p.second), "touching ranges were merged at the ends of [", p.first, ",",
              p.first + p.second, "): ", show(r));
}
} // namespace

PROPERTY(ranges, 250000, 3000000)
{
  RangeCounting rc;
  Count c;
  bool overlap = false, removal = false;
  int n = g.range(1, 40);
  bool onlyExact = g.coin();
  for(int o = 0; o < n; ++o)
  {
    int s, d;
    std::vector<Range> before = c.runs();
    switch(g.weighted({5, 5, 1, 2, 2}))
    {
      case 0:
      {
        s = g.range(-4, 10);
        d = g.range(0, 6);
        g.log("add(", s, ",", d, ")");
        bool ch = rc.add({s, d});
        c.add(s, d);
        if(c.max() > 1) overlap = true;
        REQUIRE(ch == (before != c.runs()), "return value of add");
        break;
      }
      case 1:
      {
        if(onlyExact)
        {
          if(c.present.empty()) continue;
          auto it = c.present.begin();
          std::advance(it, g.range(0, static_cast<int>(c.present.size()) - 1));
          s = it->first;
          d = it->second;
        }
        else
        {
          auto runs = c.runs();
          if(runs.empty()) continue;
          Range r = g.pick(runs);
          s = r.start + g.range(0, r.dim - 1);
          d = g.range(0, r.end() - s);
        }
        g.log("remove(", s, ",", d, ")");
        bool ch = rc.remove({s, d});
        c.remove(s, d);
        if(d) removal = true;
        REQUIRE(ch == (before != c.runs()), "return value of remove");
        break;
      }
      case 2:
      {
        s = g.range(-4, 10);
        d = g.range(1, 6);
        if(c.covered(s, d)) continue;
        g.log("invalid remove(", s, ",", d, ")");
        g.tag("refused removal");
        REQUIRE_THROWS(rc.remove({s, d}), std::runtime_error);
        break;
      }
      case 3:
        g.log("ranges(false)");
        REQUIRE(rc.ranges(false) == c.runs(), "got ", show(rc.ranges(false)), " expected ", show(c.runs()));
        break;
      default:
        g.log("ranges(true)");
        checkSplit(c, rc.ranges(true));
    }
    REQUIRE(rc.empty() == c.runs().empty());
    REQUIRE(rc.maxCount() == c.max());
  }
  REQUIRE(rc.ranges() == c.runs(), "got ", show(rc.ranges()), " expected ", show(c.runs()));
  checkSplit(c, rc.ranges(true));
  REQUIRE(rc.ranges(false) == c.runs());
  if(overlap && removal) g.nontrivial();
}

namespace
{
struct VCount
{
  // (root, d) -> factors
  std::map<std::pair<int, int>, Count> c;
  Count & operator()(const Piece & p) { return c[{p.root, p.d}]; }
};

/** Express x as a range of factors of a root. */
Range factors(const Pool & pool, const Variable & x, int & root)
{
  for(size_t r = 0; r < pool.roots.size(); ++r)
  {
    const Root & R = pool.roots[r];
    VariablePtr s = R.v;
    for(int k = 0; k < x.derivativeNumber(); ++k) s = dot(s);
    if(x.superVariable() != s) continue;
    root = static_cast<int>(r);
    Range v = x.subvariableRange();
    for(int a = 0; a < R.n(); ++a)
      for(int b = a + 1; b <= R.n(); ++b)
      {
        Tri A = R.cum(a), B = R.cum(b);
        int s0 = x.derivativeNumber() ? A.t : A.r, e0 = x.derivativeNumber() ? B.t : B.r;
        if(v.start == s0 && v.end() == e0)
        {
          REQUIRE(x.space() == Space(B.m - A.m, B.r - A.r, B.t - A.t), "space of ", x.name());
          REQUIRE(x.spaceShift() == Space(A.m, A.r, A.t), "shift of ", x.name());
          return {a, b - a};
        }
      }
    pbt::fail("variable " + x.name() + " does not match factors of its root");
  }
  pbt::fail("unknown variable " + x.name());
}

void checkVars(const Pool & pool, VCount & vc, VariableCountingVector & v)
{
  const VariableVector & vars = v.variables();
  std::map<std::pair<int, int>, std::vector<Range>> got;
  std::pair<int, int> cur{-1, -1};
  for(const auto & x : vars)
  {
    int r;
    Range f = factors(pool, *x, r);
    std::pair<int, int> key{r, x->derivativeNumber()};
    if(key != cur) REQUIRE(!got.count(key), "variables with the same super variable are not grouped");
    cur = key;
    got[key].push_back(f);
  }
  for(auto & [k, c] : vc.c)
  {
    if(v.split())
      checkSplit(c, got[k]);
    else
      REQUIRE(got[k] == c.runs(), "got ", show(got[k]), " expected ", show(c.runs()));
    got.erase(k);
  }
  for(auto & k : got) REQUIRE(k.second.empty(), "variable that was not added");
  if(!v.split())
  {
    auto simple = v.simple();
    REQUIRE(static_cast<int>(simple.size()) == vars.numberOfVariables());
  }
  // whole variables are given by the variable itself, not by a copy
  for(const auto & x : vars)
    for(const auto & R : pool.roots)
      if(*x == *R.v) REQUIRE(x == R.v);
  bool disjoint = true;
  for(auto & p : vc.c)
    if(p.second.max() > 1) disjoint = false;
  REQUIRE(v.isDisjointUnion() == disjoint);
}
} // namespace

PROPERTY(variables, 120000, 1200000)
{
  Pool pool;
  genRoots(g, pool, g.range(1, 3), 6, g.coin(1, 2), 2);
  bool split = g.coin();
  g.log("split: ", split);
  VariableCountingVector v(split);
  VCount vc;
  std::vector<Piece> added;
  bool overlap = false, removal = false;
  // for each (super) variable: the factors added since it last appeared, and whether a removal changed it
  struct Since
  {
    std::vector<Range> adds;
    bool cut = false;
  };
  std::map<std::pair<int, int>, Since> since;
  auto checkSimple = [&] {
    if(split) return;
    auto simple = v.simple();
    std::map<std::pair<int, int>, std::pair<bool, bool>> all; // (every variable is due to a single add, one is flagged)
    const auto & vars = v.variables();
    for(int i = 0; i < vars.numberOfVariables(); ++i)
    {
      int r;
      Range f = factors(pool, *vars[i], r);
      std::pair<int, int> key{r, vars[i]->derivativeNumber()};
      const auto & adds = since[key].adds;
      auto it = std::find_if(adds.begin(), adds.end(), [&](const Range & a) { return a.start < f.end() && f.start < a.end(); });
      bool single = it != adds.end() && *it == f;
      bool flag = simple[static_cast<size_t>(i)];
      if(flag) REQUIRE(single && !since[key].cut, vars[i]->name(), " is flagged as simple");
      auto & a = all.insert({key, {true, true}}).first->second;
      a.first = a.first && single;
      a.second = a.second && flag;
    }
    for(const auto & a : all)
      if(a.second.first && !since[a.first].cut)
      {
        g.tag("simple");
        REQUIRE(a.second.second, "a variable is not flagged as simple");
      }
  };
  int n = g.range(1, 25);
  int maxD = g.coin(1, 3) ? 2 : 0;
  bool vectors = g.coin(1, 4);
  for(int o = 0; o < n; ++o)
  {
    switch(g.weighted({5, 4, 1, 3}))
    {
      case 0:
      {
        Piece p = genPiece(g, pool, maxD);
        g.log("add ", p.name);
        added.push_back(p);
        Count & c = vc(p);
        auto before = c.runs();
        c.add(p.e0, p.ne);
        since[{p.root, p.d}].adds.emplace_back(p.e0, p.ne);
        if(c.max() > 1) overlap = true;
        if(vectors)
          v.add(VariableVector(p.p));
        else
        {
          bool ch = v.add(p.p);
          if(!split) REQUIRE(ch == (c.runs() != before), "return value of add");
        }
        break;
      }
      case 1:
      {
        if(added.empty()) break;
        size_t i = static_cast<size_t>(g.range(0, static_cast<int>(added.size()) - 1));
        Piece p = added[i];
        added.erase(added.begin() + static_cast<long>(i));
        // possibly remove by an equal but different object
        Piece q = g.coin() ? pool.make(p.root, p.e0, p.ne, p.d) : p;
        g.log("remove ", p.name);
        removal = true;
        Count & c = vc(p);
        auto before = c.runs();
        c.remove(p.e0, p.ne);
        if(c.runs().empty())
          since.erase({p.root, p.d});
        else if(c.runs() != before)
          since[{p.root, p.d}].cut = true;
        if(vectors)
          v.remove(VariableVector(q.p));
        else
        {
          bool ch = v.remove(*q.p);
          if(!split) REQUIRE(ch == (c.runs() != before), "return value of remove");
        }
        break;
      }
      case 2:
        if(!g.coin(1, 3)) break;
        g.log("clear");
        v.clear();
        vc.c.clear();
        added.clear();
        since.clear();
        break;
      default:
        g.log("variables()");
        checkVars(pool, vc, v);
        checkSimple();
    }
  }
  checkVars(pool, vc, v);
  checkSimple();
  if(v.variables().totalSize())
  {
    Eigen::VectorXd x = g.bulkVec(v.variables().totalSize());
    v.set(x);
    REQUIRE(v.variables().value() == x);
  }
  if(split) g.tag("split");
  if(overlap && removal) g.nontrivial();
}

PROPERTY(partition, 80000, 800000)
{
  Pool pool;
  genRoots(g, pool, g.range(1, 3), 6, g.coin(1, 2), 2);
  int nc = g.range(1, 3);
  int maxD = g.coin(1, 4) ? 1 : 0;
  std::vector<VariableVector> cs(static_cast<size_t>(nc));
  std::vector<std::vector<VariablePtr>> ls(static_cast<size_t>(nc));
  VariableCountingVector part(true);
  for(int k = 0; k < nc; ++k)
  {
    int m = g.range(k == 0 ? 1 : 0, 5);
    for(int i = 0; i < m; ++i)
    {
      Piece p = genPiece(g, pool, maxD);
      auto & c = cs[static_cast<size_t>(k)];
      if(c.intersects(*p.p)) continue;
      g.log("c", k, ": ", p.name);
      c.add(p.p);
      ls[static_cast<size_t>(k)].push_back(p.p);
    }
    part.add(cs[static_cast<size_t>(k)]);
  }
  if(g.coin(1, 3)) part.variables(); // force an intermediate evaluation
  bool cut = false;
  auto check = [&](const auto & c, const VariableVector & vv) {
    tvm::internal::VariableVectorPartition p(c, part);
    VariableVector seen;
    size_t i = 0;
    int covered = 0;
    for(const auto & x : p)
    {
      REQUIRE(i < c.end() - c.begin(), "too many variables");
      const VariablePtr & v = *(c.begin() + static_cast<long>(i));
      REQUIRE(v->contains(*x), x->name(), " is not in ", v->name());
      REQUIRE(x->subvariableRange().start == v->subvariableRange().start + covered, "pieces of ", v->name(), " are not consecutive");
      covered += x->size();
      if(x->size() < v->size()) cut = true;
      for(const auto & o : cs)
        for(const auto & y : o) REQUIRE(y->contains(*x) || !y->intersects(*x), x->name(), " is cut by ", y->name());
      REQUIRE(seen.add(x), x->name(), " enumerated twice");
      if(covered == v->size())
      {
        ++i;
        covered = 0;
      }
    }
    REQUIRE(i == static_cast<size_t>(c.end() - c.begin()), "not all variables were enumerated");
    REQUIRE(seen.totalSize() == vv.totalSize());
  };
  for(size_t k = 0; k < cs.size(); ++k)
  {
    check(cs[k], cs[k]);
    check(ls[k], cs[k]);
  }
  if(cut) g.nontrivial();
}
