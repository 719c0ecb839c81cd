#include "vars.h"
#include <memory>
#include <optional>

using namespace vars;

const pbt::Info pbt::info = {
    "P02",
    "history: a pool of 4 to 12 variables (subvariables, derivatives, equal but distinct objects) of 1 to 3 roots, 3 vectors, 2 to 40 operations "
    "(add one/list/vector, addAndGetIndex, remove by value or index, clear, copy, assign, move, destroy, set, setZero, dot, mapping queries), all "
    "compared with lists of coordinate ranges. Non-trivial: at least one removal of a variable which is not the last one, followed by a "
    "mapping query. Distinctness: the sequence of choices."};

namespace
{
using Model = std::vector<int>; // indices of pieces

struct World
{
  Gen & g;
  Pool pool;
  std::vector<Eigen::VectorXd> data; // value of each (root, d)
  std::vector<std::unique_ptr<VariableVector>> vs;
  std::vector<Model> ms;

  const Piece & P(int i) const { return pool.pieces[static_cast<size_t>(i)]; }
  Eigen::VectorXd & D(const Piece & p) { return data[static_cast<size_t>(p.root * 3 + p.d)]; }

  int total(const Model & m) const
  {
    int s = 0;
    for(int i : m) s += P(i).size;
    return s;
  }
  /** Start of piece in model or -1*/
  int find(const Model & m, const Piece & p) const
  {
    int s = 0;
    for(int i : m)
    {
      if(P(i).contains(p)) return s + p.start - P(i).start;
      s += P(i).size;
    }
    return -1;
  }
  bool contained(const Model & m, const Piece & p) const { return find(m, p) >= 0; }
  bool intersects(const Model & m, const Piece & p) const
  {
    for(int i : m)
      if(P(i).intersects(p)) return true;
    return false;
  }
  Eigen::VectorXd value(const Model & m)
  {
    Eigen::VectorXd v(total(m));
    int s = 0;
    for(int i : m)
    {
      v.segment(s, P(i).size) = D(P(i)).segment(P(i).start, P(i).size);
      s += P(i).size;
    }
    return v;
  }

  /** True if added, throws Failure if it does not behave as it should*/
  void add(size_t k, int i)
  {
    const Piece & p = P(i);
    if(contained(ms[k], p))
      REQUIRE(!vs[k]->add(p.p), "already present");
    else if(intersects(ms[k], p))
      REQUIRE_THROWS(vs[k]->add(p.p), std::runtime_error);
    else
    {
      REQUIRE(vs[k]->add(p.p), "not added");
      ms[k].push_back(i);
    }
  }

  void query(size_t k, int i)
  {
    const Piece & p = P(i);
    int s = find(ms[k], p);
    if(s < 0)
      REQUIRE_THROWS(p.p->getMappingIn(*vs[k]), std::runtime_error, p.name, " in v", k);
    else
    {
      Range r = p.p->getMappingIn(*vs[k]);
      REQUIRE(r == Range(s, p.size), p.name, " in v", k, ": got ", r.start, ",", r.dim, " expected ", s, ",", p.size);
    }
  }

  void check()
  {
    for(size_t k = 0; k < vs.size(); ++k)
    {
      VariableVector & v = *vs[k];
      const Model & m = ms[k];
      REQUIRE(v.numberOfVariables() == static_cast<int>(m.size()), "v", k);
      REQUIRE(v.totalSize() == total(m), "v", k);
      REQUIRE(v.variables().size() == m.size());
      size_t j = 0;
      for(const auto & x : v)
      {
        REQUIRE(x == P(m[j]).p, "variable ", j, " of v", k, " is ", x->name());
        REQUIRE(v[static_cast<int>(j)] == x && v.variables()[j] == x);
        ++j;
      }
      for(size_t i = 0; i < pool.pieces.size(); ++i)
      {
        const Piece & p = pool.pieces[i];
        REQUIRE(v.contains(*p.p) == contained(m, p), "v", k, " contains ", p.name);
        REQUIRE(v.intersects(*p.p) == intersects(m, p), "v", k, " intersects ", p.name);
        int idx = -1;
        for(size_t l = 0; l < m.size(); ++l)
          if(P(m[l]).equals(p)) idx = static_cast<int>(l);
        REQUIRE(v.indexOf(*p.p) == idx, "v", k, " index of ", p.name);
      }
      REQUIRE(v.value() == value(m), "value of v", k);
    }
  }
};
} // namespace

PROPERTY(history, 120000, 1500000)
{
  World w{g, {}, {}, {}, {}};
  genRoots(g, w.pool, g.range(1, 3), 5, g.coin(2, 3), 2);
  int np = g.range(4, 12);
  for(int i = 0; i < np; ++i)
  {
    w.pool.pieces.push_back(genPiece(g, w.pool, g.coin(1, 2) ? 2 : 0));
    const Piece & p = w.pool.pieces.back();
    g.log("p", i, ": ", p.name, " factors ", p.e0, "+", p.ne, " d", p.d);
  }
  for(auto & R : w.pool.roots)
    for(int d = 0; d < 3; ++d)
    {
      VariablePtr x = d ? dot(R.v, d) : R.v;
      Eigen::VectorXd v = g.bulkVec(x->size());
      x->set(v);
      w.data.push_back(v);
    }
  for(int k = 0; k < 3; ++k)
  {
    w.vs.push_back(std::make_unique<VariableVector>());
    w.ms.emplace_back();
  }
  bool removed = false, queried = false;
  int n = g.range(2, 40);
  for(int o = 0; o < n; ++o)
  {
    size_t k = static_cast<size_t>(g.range(0, 2));
    int i = g.range(0, np - 1);
    VariableVector & v = *w.vs[k];
    Model & m = w.ms[k];
    const Piece & p = w.P(i);
    switch(g.weighted({8, 1, 1, 4, 4, 3, 1, 2, 1, 1, 1, 3, 1, 1, 8, 2}))
    {
      case 0:
        g.log("v", k, ".add(p", i, ")");
        w.add(k, i);
        break;
      case 1: // list
      {
        std::vector<VariablePtr> l;
        Model mm = m;
        bool bad = false;
        for(int q = 0; q < 3 && !bad; ++q)
        {
          int a = g.range(0, np - 1);
          l.push_back(w.P(a).p);
          g.logs("p", a, " ");
          if(w.contained(mm, w.P(a))) continue;
          if(w.intersects(mm, w.P(a)))
            l.pop_back();
          else
            mm.push_back(a);
        }
        g.log("added as a list to v", k);
        v.add(l);
        m = mm;
        break;
      }
      case 2: // vector
      {
        size_t k2 = static_cast<size_t>(g.range(0, 2));
        Model mm = m;
        bool bad = false;
        for(int a : w.ms[k2])
        {
          if(w.contained(mm, w.P(a))) continue;
          if(w.intersects(mm, w.P(a)))
          {
            bad = true;
            break;
          }
          mm.push_back(a);
        }
        if(bad) break;
        g.log("v", k, ".add(v", k2, ")");
        v.add(*w.vs[k2]);
        m = mm;
        break;
      }
      case 3:
      {
        bool containing = g.coin();
        g.log("v", k, ".addAndGetIndex(p", i, ", ", containing, ")");
        int idx = -1, in = -1;
        for(size_t l = 0; l < m.size(); ++l)
        {
          if(w.P(m[l]).equals(p)) idx = static_cast<int>(l);
          if(w.P(m[l]).contains(p)) in = static_cast<int>(l);
        }
        if(idx >= 0)
          REQUIRE(v.addAndGetIndex(p.p, containing) == idx);
        else if(in >= 0)
          REQUIRE(v.addAndGetIndex(p.p, containing) == (containing ? in : -1));
        else if(w.intersects(m, p))
          REQUIRE_THROWS(v.addAndGetIndex(p.p, containing), std::runtime_error);
        else
        {
          REQUIRE(v.addAndGetIndex(p.p, containing) == static_cast<int>(m.size()));
          m.push_back(i);
        }
        break;
      }
      case 4:
      {
        g.log("v", k, ".remove(*p", i, ")");
        auto it = std::find_if(m.begin(), m.end(), [&](int a) { return w.P(a).equals(p); });
        bool there = it != m.end();
        REQUIRE(v.remove(*p.p) == there);
        if(there)
        {
          if(it + 1 != m.end()) removed = true;
          m.erase(it);
        }
        break;
      }
      case 5:
      {
        int idx = g.range(-1, static_cast<int>(m.size()));
        g.log("v", k, ".remove(", idx, ")");
        if(idx < 0 || idx >= static_cast<int>(m.size()))
          REQUIRE_THROWS(v.remove(idx), std::out_of_range);
        else
        {
          v.remove(idx);
          if(idx + 1 < static_cast<int>(m.size())) removed = true;
          m.erase(m.begin() + idx);
        }
        break;
      }
      case 6:
        g.log("v", k, ".clear()");
        v.clear();
        m.clear();
        break;
      case 7:
      {
        size_t k2 = static_cast<size_t>(g.range(0, 2));
        g.log("v", k, " = v", k2);
        v = *w.vs[k2];
        if(k != k2) m = w.ms[k2];
        break;
      }
      case 8:
      {
        size_t k2 = static_cast<size_t>(g.range(0, 2));
        g.log("v", k, " is replaced by a copy of v", k2);
        auto c = std::make_unique<VariableVector>(*w.vs[k2]);
        w.ms[k] = w.ms[k2];
        w.vs[k] = std::move(c);
        break;
      }
      case 9:
      {
        g.log("v", k, " is moved to a new vector");
        auto c = std::make_unique<VariableVector>(std::move(v));
        w.vs[k] = std::move(c);
        break;
      }
      case 10:
      {
        size_t k2 = static_cast<size_t>(g.range(0, 2));
        if(k == k2) break;
        g.log("v", k, " = std::move(v", k2, "), v", k2, " is new");
        v = std::move(*w.vs[k2]);
        w.vs[k2] = std::make_unique<VariableVector>();
        m = w.ms[k2];
        w.ms[k2].clear();
        break;
      }
      case 11:
      {
        Eigen::VectorXd x = g.bulkVec(w.total(m));
        g.log("v", k, ".set(", x.transpose(), ")");
        v.set(x);
        int s = 0;
        for(int a : m)
        {
          w.D(w.P(a)).segment(w.P(a).start, w.P(a).size) = x.segment(s, w.P(a).size);
          s += w.P(a).size;
        }
        break;
      }
      case 12:
        g.log("v", k, ".setZero()");
        v.setZero();
        for(int a : m) w.D(w.P(a)).segment(w.P(a).start, w.P(a).size).setZero();
        break;
      case 13:
      {
        int d = g.range(1, 2);
        g.log("dot(v", k, ", ", d, ")");
        VariableVector dv = dot(v, d);
        REQUIRE(dv.numberOfVariables() == static_cast<int>(m.size()));
        for(int a = 0; a < dv.numberOfVariables(); ++a) REQUIRE(dv[a] == dot(v[a], d));
        break;
      }
      case 14:
        g.log("query p", i, " in v", k);
        w.query(k, i);
        if(removed) queried = true;
        break;
      default:
      {
        g.log("getMappingOf(p", i, ") in v", k);
        int s = w.find(m, p);
        if(s < 0)
          REQUIRE_THROWS(v.getMappingOf(*p.p), std::runtime_error);
        else
          REQUIRE(v.getMappingOf(*p.p) == Range(s, p.size));
      }
    }
    w.check();
    // One random query rather than all of them, not to keep all caches hot.
    w.query(static_cast<size_t>(g.range(0, 2)), g.range(0, np - 1));
  }
  if(queried) g.tag("query after removal");
  if(removed && queried) g.nontrivial();
  for(size_t k = 0; k < 3; ++k)
    for(int i = 0; i < np; ++i) w.query(k, i);
}

PROPERTY(construct, 10000, 30000)
{
  // Variadic constructor: same as adding in order
  Pool pool;
  genRoots(g, pool, 3, 4, true, 2);
  std::vector<Piece> ps;
  for(int i = 0; i < 6; ++i) ps.push_back(genPiece(g, pool, 1));
  for(size_t i = 0; i < ps.size(); ++i)
    for(size_t j = 0; j < i; ++j)
      if(ps[i].intersects(ps[j]) && !ps[j].contains(ps[i])) throw pbt::Discard();
  VariableVector ref;
  for(auto & p : ps) ref.add(p.p);
  std::vector<VariablePtr> l{ps[1].p, ps[2].p};
  VariableVector a(ps[0].p, ps[1].p), b(ps[3].p, ps[4].p);
  VariableVector v1(ps[0].p, l, b, ps[5].p);
  VariableVector v2(a, ps[2].p, b, VariablePtr(ps[5].p));
  std::vector<VariablePtr> all;
  for(auto & p : ps) all.push_back(p.p);
  VariableVector v3(all);
  for(auto * v : {&v1, &v2, &v3})
  {
    REQUIRE(v->variables() == ref.variables());
    REQUIRE(v->totalSize() == ref.totalSize());
  }
  VariableVector v4(std::vector<VariablePtr>{ps[0].p}, Space(2).createVariable("new"));
  REQUIRE(v4.totalSize() == ps[0].size + 2 && v4[1]->name() == "new");
  if(ref.numberOfVariables() >= 3) g.nontrivial();
}
