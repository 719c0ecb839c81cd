#include "pbt.h"
#include <tvm/graph/internal/DependencyGraph.h>
#include <algorithm>
#include <set>

using tvm::graph::internal::DependencyGraph;

const pbt::Info pbt::info = {
    "P10",
    "history: a sequence of node and edge insertions, node removals and clears on a dependency graph of up to 9 nodes, all observers being compared with a reachability model after each mutation. "
    "large: graphs of up to 40 nodes built at once. Non-trivial: a history with a removal, an acyclic state with 3 edges or more, and 2 edges or more at the end (history), at least one "
    "strongly connected component of several nodes or a depth of 3 (large). Distinctness: the sequence of choices."};

namespace
{
struct Model
{
  std::vector<std::set<int>> adj;
  int n() const { return static_cast<int>(adj.size()); }
  int nEdges() const
  {
    int s = 0;
    for(auto & a : adj) s += static_cast<int>(a.size());
    return s;
  }
  /** r[i][j]: there is a path of at least one edge from i to j.*/
  std::vector<std::vector<char>> closure() const
  {
    std::vector<std::vector<char>> r(adj.size(), std::vector<char>(adj.size(), 0));
    for(int i = 0; i < n(); ++i)
      for(int j : adj[i]) r[i][j] = 1;
    for(int k = 0; k < n(); ++k)
      for(int i = 0; i < n(); ++i)
        if(r[i][k])
          for(int j = 0; j < n(); ++j)
            if(r[k][j]) r[i][j] = 1;
    return r;
  }
  std::vector<int> components() const
  {
    std::vector<int> c(adj.size());
    for(int i = 0; i < n(); ++i) c[i] = i;
    for(bool changed = true; changed;)
    {
      changed = false;
      for(int i = 0; i < n(); ++i)
        for(int j : adj[i])
          if(c[i] != c[j])
          {
            c[i] = c[j] = std::min(c[i], c[j]);
            changed = true;
          }
    }
    return c;
  }
  void remove(int id)
  {
    adj.erase(adj.begin() + id);
    for(auto & a : adj)
    {
      std::set<int> b;
      for(int j : a)
        if(j != id) b.insert(j > id ? j - 1 : j);
      a.swap(b);
    }
  }
};

struct Stat
{
  bool cyclic = false;
  bool bigScc = false;
  int depth = 0;
};

Stat checkAll(const DependencyGraph & g, const Model & m)
{
  Stat st;
  REQUIRE(static_cast<int>(g.size()) == m.n(), "size is ", g.size(), " instead of ", m.n());
  std::set<std::pair<size_t, size_t>> e;
  for(int i = 0; i < m.n(); ++i)
    for(int j : m.adj[i]) e.insert({i, j});
  REQUIRE(g.edges() == e, "wrong set of edges");
  auto r = m.closure();
  for(int i = 0; i < m.n(); ++i) st.cyclic = st.cyclic || r[i][i];

  // order
  bool thrown = false;
  std::vector<size_t> o;
  try
  {
    o = g.order();
  }
  catch(const std::logic_error &)
  {
    thrown = true;
  }
  REQUIRE(thrown == st.cyclic, "order() ", (thrown ? "threw" : "did not throw"), " on a graph which ", (st.cyclic ? "has a cycle" : "has no cycle"));
  bool gthrown = false;
  std::vector<std::vector<size_t>> go;
  try
  {
    go = g.groupedOrder();
  }
  catch(const std::logic_error &)
  {
    gthrown = true;
  }
  REQUIRE(gthrown == st.cyclic,
          "groupedOrder() ", (gthrown ? "threw" : "did not throw"), " on a graph which ", (st.cyclic ? "has a cycle" : "has no cycle"));
  if(!st.cyclic)
  {
    std::vector<int> pos(m.adj.size(), -1);
    REQUIRE(static_cast<int>(o.size()) == m.n(), "order() returns ", o.size(), " nodes out of ", m.n());
    for(size_t k = 0; k < o.size(); ++k)
    {
      REQUIRE(o[k] < m.adj.size(), "order() returns an unknown node");
      REQUIRE(pos[o[k]] < 0, "order() returns node ", o[k], " twice");
      pos[o[k]] = static_cast<int>(k);
    }
    for(int i = 0; i < m.n(); ++i)
      for(int j : m.adj[i]) REQUIRE(pos[j] < pos[i], "order() places ", i, " before its dependency ", j);
    // depth
    std::vector<int> d(m.adj.size(), 0);
    for(auto i : o)
    {
      for(int j : m.adj[i]) d[i] = std::max(d[i], d[j] + 1);
      st.depth = std::max(st.depth, d[i]);
    }

    auto c = m.components();
    std::set<int> nc(c.begin(), c.end());
    REQUIRE(go.size() == nc.size(), "groupedOrder() returns ", go.size(), " groups for ", nc.size(), " components");
    std::vector<char> seen(m.adj.size(), 0);
    size_t total = 0;
    for(auto & grp : go)
    {
      REQUIRE(!grp.empty(), "groupedOrder() returns an empty group");
      std::vector<int> p(m.adj.size(), -1);
      for(size_t k = 0; k < grp.size(); ++k)
      {
        REQUIRE(grp[k] < m.adj.size(), "groupedOrder() returns an unknown node");
        REQUIRE(!seen[grp[k]], "groupedOrder() returns node ", grp[k], " twice");
        seen[grp[k]] = 1;
        ++total;
        p[grp[k]] = static_cast<int>(k);
        REQUIRE(c[grp[k]] == c[grp[0]], "nodes ", grp[k], " and ", grp[0], " are in the same group but not in the same component");
      }
      for(auto i : grp)
        for(int j : m.adj[i]) REQUIRE(p[j] >= 0 && p[j] < p[i], "groupedOrder() places ", i, " before its dependency ", j);
    }
    REQUIRE(total == m.adj.size(), "groupedOrder() misses nodes");
  }

  // reduction
  auto [scc, red] = g.reduce();
  std::vector<int> cls(m.adj.size(), -1);
  for(size_t k = 0; k < scc.size(); ++k)
  {
    REQUIRE(!scc[k].empty(), "empty strongly connected component");
    if(scc[k].size() > 1) st.bigScc = true;
    for(auto i : scc[k])
    {
      REQUIRE(i < m.adj.size() && cls[i] < 0, "node ", i, " unknown or in several strongly connected components");
      cls[i] = static_cast<int>(k);
    }
  }
  for(int i = 0; i < m.n(); ++i)
  {
    REQUIRE(cls[i] >= 0, "node ", i, " is in no strongly connected component");
    for(int j = 0; j < i; ++j)
      REQUIRE((cls[i] == cls[j]) == (r[i][j] && r[j][i]),
              "nodes ", i, " and ", j, (cls[i] == cls[j] ? " are" : " are not"), " in the same strongly connected component");
  }
  std::set<std::pair<size_t, size_t>> re;
  for(auto & p : e)
    if(cls[p.first] != cls[p.second]) re.insert({cls[p.first], cls[p.second]});
  REQUIRE(red.size() == scc.size(), "the reduced graph has ", red.size(), " nodes for ", scc.size(), " components");
  REQUIRE(red.edges() == re, "wrong edges in the reduced graph");
  // the reduced graph is usable, and acyclic
  std::vector<size_t> ro = red.order();
  REQUIRE(ro.size() == red.size(), "order of the reduced graph misses nodes");
  std::vector<int> pos(ro.size(), -1);
  for(size_t k = 0; k < ro.size(); ++k) pos[ro[k]] = static_cast<int>(k);
  for(auto & p : re) REQUIRE(pos[p.second] >= 0 && pos[p.second] < pos[p.first], "wrong order of the reduced graph");
  return st;
}
} // namespace

PROPERTY(history, 80000, 1500000)
{
  DependencyGraph gr;
  Model m;
  int n0 = g.range(0, 6);
  for(int i = 0; i < n0; ++i)
  {
    REQUIRE(gr.addNode() == static_cast<size_t>(i), "wrong id for a new node");
    m.adj.push_back({});
  }
  // Few cycles by default
  bool dag = g.coin(2, 3);
  int ops = g.range(1, 20);
  bool removed = false, cyc = false, acyc = false;
  for(int k = 0; k < ops; ++k)
  {
    switch(g.weighted({12, 3, 3, 1}))
    {
      case 0:
      {
        if(m.n() == 0) continue;
        int a = g.range(0, m.n() - 1), b = g.range(0, m.n() - 1);
        if(dag && !g.coin(1, 12))
        {
          if(a == b) continue;
          if(a > b) std::swap(a, b);
        }
        g.log("edge ", a, "->", b);
        bool isNew = m.adj[a].insert(b).second;
        REQUIRE(gr.addEdge(a, b) == isNew, "wrong value returned by addEdge");
        break;
      }
      case 1:
        if(m.n() >= 9) continue;
        REQUIRE(gr.addNode() == m.adj.size(), "wrong id for a new node");
        m.adj.push_back({});
        g.log("node");
        break;
      case 2:
      {
        if(m.n() == 0) continue;
        int a = g.range(0, m.n() - 1);
        g.log("remove ", a);
        gr.removeNode(a);
        m.remove(a);
        removed = true;
        break;
      }
      default:
        if(!g.coin(1, 5)) continue;
        g.log("clear");
        gr.clear();
        m = Model();
    }
    auto st = checkAll(gr, m);
    if(m.nEdges() >= 3) (st.cyclic ? cyc : acyc) = true;
  }
  if(cyc) g.tag("cyclic");
  if(acyc) g.tag("acyclic");
  if(removed && acyc && m.nEdges() >= 2) g.nontrivial();
}

PROPERTY(large, 8000, 200000)
{
  DependencyGraph gr;
  Model m;
  int n = g.range(1, 40);
  for(int i = 0; i < n; ++i)
  {
    gr.addNode();
    m.adj.push_back({});
  }
  bool dag = g.coin(2, 3);
  int ne = g.range(0, 3 * n);
  for(int k = 0; k < ne; ++k)
  {
    int a = g.range(0, n - 1), b = g.range(0, n - 1);
    if(dag && a >= b) continue;
    // Nodes in a random order
    a = (a * 17 + 5) % 41 % n;
    b = (b * 17 + 5) % 41 % n;
    if(dag && m.closure()[b][a]) continue;
    if(dag && a == b) continue;
    m.adj[a].insert(b);
    gr.addEdge(a, b);
  }
  auto st = checkAll(gr, m);
  int rm = g.range(0, std::min(n, 5));
  for(int k = 0; k < rm; ++k)
  {
    int a = g.range(0, m.n() - 1);
    gr.removeNode(a);
    m.remove(a);
    auto s2 = checkAll(gr, m);
    st.depth = std::max(st.depth, s2.depth);
    st.bigScc = st.bigScc || s2.bigScc;
  }
  if(st.cyclic) g.tag("cyclic");
  if(st.bigScc || st.depth >= 3) g.nontrivial();
}
