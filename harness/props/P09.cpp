#include "pbt.h"
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>
#include <tvm/graph/abstract/OutputSelector.h>
#include <tvm/utils/graph.h>
#include <map>
#include <set>

using namespace tvm::graph;
using internal::Inputs;

const pbt::Info pbt::info = {
    "P09",
    "network: up to 9 nodes or sources of 4 classes (plain node, derived node with a disabled output and a disabled update, node whose outputs can be disabled at run time, source without update) with "
    "random output, direct, internal and input dependencies, mostly acyclic, possibly built in presence of refused declarations; then a history of additions/removals of requested outputs and (re)buildings of "
    "one or several graphs. lifetime: the nodes are kept alive by the graph only, which is built by hand or by generateUpdateGraph. sources: histories of additions and removals of inputs, of releases of sources. The oracle recomputes the set of needed calls and their dependencies from the declarations. Non-trivial: a plan of 4 calls or more with 3 dependencies or more between "
    "them, on a network where some calls are not needed. Distinctness: the sequence of choices."};

namespace
{
using Call = std::pair<int, int>; // node, update
std::vector<Call> * record = nullptr;

/** Plain node with 4 outputs and 4 updates.*/
class N : public abstract::Node<N>
{
public:
  SET_OUTPUTS(N, O0, O1, O2, O3)
  SET_UPDATES(N, U0, U1, U2, U3)
  int id;
  explicit N(int i) : id(i) {}
  template<int K>
  void up()
  { record->push_back({id, K}); }
  template<typename E>
  void reg(E u)
  {
    switch(static_cast<int>(u))
    {
      case 0:
        registerUpdates(u, &N::up<0>);
        break;
      case 1:
        registerUpdates(u, &N::up<1>);
        break;
      case 2:
        registerUpdates(u, &N::up<2>);
        break;
      default:
        registerUpdates(u, &N::up<3>);
    }
  }
  virtual void regUp(int u) { reg(static_cast<N::Update_>(u)); }
  virtual int nOut() const { return 4; }
  virtual int nUp() const { return 4; }
  virtual void out(int o, int u) { addOutputDependency(static_cast<N::Output_>(o), static_cast<N::Update_>(u)); }
  virtual void outs(int o1, int o2, int u)
  { addOutputDependency({static_cast<N::Output_>(o1), static_cast<N::Output_>(o2)}, static_cast<N::Update_>(u)); }
  virtual void internalDep(int u, int v) { addInternalDependency(static_cast<N::Update_>(u), static_cast<N::Update_>(v)); }
  template<typename U, typename S, typename... O>
  void inT(U u, const S & s, O... o)
  { addInputDependency(u, s, o...); }
  template<typename O, typename S, typename I>
  void directT(O o, const S & s, I i)
  { addDirectDependency(o, s, i); }
};

/** Derived node, with 2 more outputs and updates.*/
class D : public N
{
public:
  SET_OUTPUTS(D, O4, O5)
  SET_UPDATES(D, U4, U5)
  DISABLE_OUTPUTS(N::Output::O1, D::Output::O5)
  DISABLE_UPDATES(N::Update::U2)
  explicit D(int i) : N(i) {}
  template<int K>
  void upD()
  { record->push_back({id, K}); }
  void regUp(int u) override
  {
    if(u < 4)
      registerUpdates(static_cast<N::Update_>(u), u == 0 ? &D::upD<0> : u == 1 ? &D::upD<1> : u == 2 ? &D::upD<2> : &D::upD<3>);
    else
      registerUpdates(static_cast<D::Update_>(u), u == 4 ? &D::upD<4> : &D::upD<5>);
  }
  int nOut() const override { return 6; }
  int nUp() const override { return 6; }
  template<typename F>
  static void withO(int o, F && f)
  {
    if(o < 4)
      f(static_cast<N::Output_>(o));
    else
      f(static_cast<D::Output_>(o));
  }
  template<typename F>
  static void withU(int u, F && f)
  {
    if(u < 4)
      f(static_cast<N::Update_>(u));
    else
      f(static_cast<D::Update_>(u));
  }
  void out(int o, int u) override
  {
    withO(o, [&](auto oe) { withU(u, [&](auto ue) { addOutputDependency<D>(oe, ue); }); });
  }
  void outs(int o1, int o2, int u) override
  {
    if((o1 < 4) != (o2 < 4))
    {
      out(o1, u);
      out(o2, u);
      return;
    }
    if(o1 < 4)
      withU(u, [&](auto ue) { addOutputDependency<D>({static_cast<N::Output_>(o1), static_cast<N::Output_>(o2)}, ue); });
    else
      withU(u, [&](auto ue) { addOutputDependency<D>({static_cast<D::Output_>(o1), static_cast<D::Output_>(o2)}, ue); });
  }
  void internalDep(int u, int v) override
  {
    withU(u, [&](auto ue) { withU(v, [&](auto ve) { addInternalDependency<D>(ue, ve); }); });
  }
  template<typename U, typename S, typename... O>
  void inTD(U u, const S & s, O... o)
  { addInputDependency<D>(u, s, o...); }
  template<typename O, typename S, typename I>
  void directTD(O o, const S & s, I i)
  { addDirectDependency<D>(o, s, i); }
};

/** Node with run-time selection of the outputs.*/
class Sel : public abstract::OutputSelector<N>
{
public:
  explicit Sel(int i) : abstract::OutputSelector<N>(i) {}
  void disable(int o) { disableOutput(static_cast<N::Output_>(o)); }
  void enable(int o) { enableOutput(static_cast<N::Output_>(o)); }
};

/** A source that is not a node*/
class S : public abstract::Outputs
{
public:
  SET_OUTPUTS(S, O0, O1, O2)
};

enum Kind
{
  KN,
  KD,
  KSel,
  KS
};

struct MNode
{
  Kind kind;
  std::shared_ptr<N> n;
  std::shared_ptr<D> d;
  std::shared_ptr<Sel> sel;
  std::shared_ptr<S> s;
  std::map<int, std::set<int>> out; // output -> updates
  std::map<int, std::pair<int, int>> direct; // output -> (node, output)
  std::map<int, std::set<int>> intern; // update -> updates
  std::map<int, std::set<std::pair<int, int>>> in; // update -> (node, output)
  std::set<int> dis; // run-time disabled outputs
  int nOut() const { return kind == KS ? 3 : kind == KD ? 6 : 4; }
  int nUp() const { return kind == KS ? 0 : kind == KD ? 6 : 4; }
  bool outOk(int o) const { return !(kind == KD && (o == 1 || o == 5)) && !dis.count(o); }
  bool outStatOk(int o) const { return !(kind == KD && (o == 1 || o == 5)); }
  bool upOk(int u) const { return !(kind == KD && u == 2); }
  N * node() const { return kind == KD ? d.get() : n.get(); }
  abstract::Outputs * src() const { return kind == KS ? static_cast<abstract::Outputs *>(s.get()) : node(); }
  bool used(int o) const { return out.count(o) || direct.count(o); }
};

/** Call f with a (possibly shared) reference to the concrete source, and its output of type matching o*/
template<typename F>
void withSrc(MNode & m, bool shared, F && f)
{
  auto go = [&](auto & p) {
    if(shared)
      f(p);
    else
      f(*p);
  };
  switch(m.kind)
  {
    case KN:
      go(m.n);
      break;
    case KD:
      go(m.d);
      break;
    case KSel:
      go(m.sel);
      break;
    default:
      go(m.s);
  }
}
template<typename F>
void withOut(MNode & m, int o, F && f)
{
  if(m.kind == KS)
    f(static_cast<S::Output_>(o));
  else if(o < 4)
    f(static_cast<N::Output_>(o));
  else
    f(static_cast<D::Output_>(o));
}

template<typename T>
struct IsPtr : std::false_type
{
};
template<typename T>
struct IsPtr<std::shared_ptr<T>> : std::true_type
{
  using type = T;
};
template<typename S_>
struct SrcOf
{
  using type = S_;
};
template<typename S_>
struct SrcOf<std::shared_ptr<S_>>
{
  using type = S_;
};
/** Is O the type of an output that exists in source type S_ */
template<typename S_, typename O>
constexpr bool okOut()
{
  using T = typename SrcOf<std::decay_t<S_>>::type;
  if constexpr(std::is_same_v<O, S::Output_>)
    return std::is_same_v<T, S>;
  else if constexpr(std::is_same_v<O, D::Output_>)
    return std::is_same_v<T, D>;
  else
    return !std::is_same_v<T, S>;
}

struct Network
{
  std::vector<MNode> n;

  void addIn(int a, int u, int b, const std::vector<int> & os, bool shared)
  {
    auto & A = n[a];
    auto & B = n[b];
    auto call = [&](auto & s, auto... o) {
      if constexpr((okOut<decltype(s), decltype(o)>() && ...))
      {
        if(A.kind == KD)
          D::withU(u, [&](auto ue) { dIn(*A.d, ue, s, o...); });
        else
          nIn(*A.n, static_cast<N::Update_>(u), s, o...);
      }
    };
    withSrc(B, shared, [&](auto & s) {
      withOut(B, os[0], [&](auto o0) {
        if(os.size() == 1)
          call(s, o0);
        else
          withOut(B, os[1], [&](auto o1) {
            if(os.size() == 2)
              call(s, o0, o1);
            else
              withOut(B, os[2], [&](auto o2) { call(s, o0, o1, o2); });
          });
      });
    });
  }
  // addInputDependency has overloads for a shared_ptr and for a reference. It is protected.
  struct AccN : N
  {
    using N::N;
    template<typename U, typename S_, typename... O>
    void in(U u, S_ & s, O... o)
    { this->addInputDependency(u, s, o...); }
    template<typename O, typename S_, typename I>
    void dir(O o, S_ & s, I i)
    { this->addDirectDependency(o, s, i); }
  };
  struct AccD : D
  {
    using D::D;
    template<typename U, typename S_, typename... O>
    void in(U u, S_ & s, O... o)
    { this->template addInputDependency<D>(u, s, o...); }
    template<typename O, typename S_, typename I>
    void dir(O o, S_ & s, I i)
    { this->template addDirectDependency<D>(o, s, i); }
  };
  template<typename U, typename S_, typename... O>
  static void nIn(N & n, U u, S_ & s, O... o)
  { static_cast<AccN &>(n).in(u, s, o...); }
  template<typename U, typename S_, typename... O>
  static void dIn(D & n, U u, S_ & s, O... o)
  { static_cast<AccD &>(n).in(u, s, o...); }

  void addDirect(int a, int o, int b, int i, bool shared)
  {
    auto & A = n[a];
    auto & B = n[b];
    withSrc(B, shared, [&](auto & s) {
      withOut(B, i, [&](auto ie) {
        if constexpr(okOut<decltype(s), decltype(ie)>())
        {
          if(A.kind == KD)
            D::withO(o, [&](auto oe) { static_cast<AccD &>(*A.d).dir(oe, s, ie); });
          else
            static_cast<AccN &>(*A.n).dir(static_cast<N::Output_>(o), s, ie);
        }
      });
    });
  }
  void addReq(Inputs & in, int b, const std::vector<int> & os, bool shared)
  {
    auto & B = n[b];
    withSrc(B, shared, [&](auto & s) {
      withOut(B, os[0], [&](auto o0) {
        if(os.size() == 1)
        {
          if constexpr(okOut<decltype(s), decltype(o0)>()) in.addInput(s, o0);
        }
        else
          withOut(B, os[1], [&](auto o1) {
            if constexpr(okOut<decltype(s), decltype(o0)>() && okOut<decltype(s), decltype(o1)>()) in.addInput(s, o0, o1);
          });
      });
    });
  }
  void remReq(Inputs & in, int b, int o)
  {
    auto & B = n[b];
    withSrc(B, true, [&](auto & s) {
      withOut(B, o, [&](auto oe) {
        if constexpr(IsPtr<std::decay_t<decltype(s)>>::value)
          if constexpr(okOut<decltype(s), decltype(oe)>()) in.removeInput(s.get(), oe);
      });
    });
  }
  void remReq(Inputs & in, int b)
  {
    withSrc(n[b], true, [&](auto & s) {
      if constexpr(IsPtr<std::decay_t<decltype(s)>>::value) in.removeInput(s.get());
    });
  }

  // Oracle
  /** The calls output o of node a directly depends on. Sets bad if there is a cycle of direct dependencies.*/
  std::set<Call> callsOf(int a, int o, bool & bad, int depth = 0) const
  {
    std::set<Call> r;
    if(depth > 100)
    {
      bad = true;
      return r;
    }
    auto & A = n[a];
    if(A.out.count(o))
      for(int u : A.out.at(o)) r.insert({a, u});
    else if(A.direct.count(o))
      return callsOf(A.direct.at(o).first, A.direct.at(o).second, bad, depth + 1);
    return r;
  }
  std::set<Call> deps(const Call & c, bool & bad) const
  {
    std::set<Call> r;
    auto & A = n[c.first];
    if(A.intern.count(c.second))
      for(int v : A.intern.at(c.second)) r.insert({c.first, v});
    if(A.in.count(c.second))
      for(auto & p : A.in.at(c.second))
      {
        auto s = callsOf(p.first, p.second, bad);
        r.insert(s.begin(), s.end());
      }
    return r;
  }
  struct Plan
  {
    std::set<Call> need;
    std::map<Call, std::set<Call>> dep;
    bool cyclic = false;
    int nDep = 0;
  };
  Plan plan(const std::set<std::pair<int, int>> & req) const
  {
    Plan p;
    std::vector<Call> todo;
    for(auto & q : req)
      for(auto & c : callsOf(q.first, q.second, p.cyclic))
        if(p.need.insert(c).second) todo.push_back(c);
    while(!todo.empty())
    {
      Call c = todo.back();
      todo.pop_back();
      p.dep[c] = deps(c, p.cyclic);
      p.nDep += static_cast<int>(p.dep[c].size());
      for(auto & d : p.dep[c])
        if(p.need.insert(d).second) todo.push_back(d);
    }
    // cycle detection
    std::map<Call, int> color;
    std::function<void(const Call &)> dfs = [&](const Call & c) {
      color[c] = 1;
      for(auto & d : p.dep[c])
      {
        if(color[d] == 1) p.cyclic = true;
        if(color[d] == 0) dfs(d);
      }
      color[c] = 2;
    };
    for(auto & c : p.need)
      if(color[c] == 0) dfs(c);
    return p;
  }
};

std::string str(const std::vector<Call> & v)
{
  std::stringstream ss;
  for(auto & c : v) ss << " " << c.first << ".U" << c.second;
  return ss.str();
}

void checkRun(const CallGraph & gr, const Network::Plan & p)
{
  std::vector<Call> calls;
  record = &calls;
  gr.execute();
  record = nullptr;
  std::map<Call, int> pos;
  for(size_t k = 0; k < calls.size(); ++k)
  {
    REQUIRE(p.need.count(calls[k]), "call ", calls[k].first, ".U", calls[k].second, " is not needed. Calls:", str(calls));
    REQUIRE(!pos.count(calls[k]), calls[k].first, ".U", calls[k].second, " is called twice. Calls:", str(calls));
    pos[calls[k]] = static_cast<int>(k);
  }
  for(auto & c : p.need) REQUIRE(pos.count(c), c.first, ".U", c.second, " is needed but not called. Calls:", str(calls));
  for(auto & d : p.dep)
    for(auto & e : d.second)
      REQUIRE(pos[e] < pos[d.first], d.first.first, ".U", d.first.second, " is called before its dependency ", e.first, ".U", e.second, ". Calls:", str(calls));
}
} // namespace

PROPERTY(network, 80000, 1500000)
{
  Network w;
  int nn = g.range(1, 3) * g.range(1, 3);
  for(int i = 0; i < nn; ++i)
  {
    MNode m;
    m.kind = static_cast<Kind>(g.weighted({5, 2, 1, 1}));
    switch(m.kind)
    {
      case KN:
        m.n = std::make_shared<N>(i);
        break;
      case KD:
        m.d = std::make_shared<D>(i);
        break;
      case KSel:
        m.sel = std::make_shared<Sel>(i);
        m.n = m.sel;
        break;
      default:
        m.s = std::make_shared<S>();
    }
    for(int u = 0; u < m.nUp(); ++u)
    {
      if(m.upOk(u))
        m.node()->regUp(u);
      else
        REQUIRE_THROWS(m.node()->regUp(u), std::runtime_error, "registering a disabled update");
    }
    if(m.nUp() && g.coin(1, 30)) REQUIRE_THROWS(m.node()->regUp(g.range(0, 1)), std::range_error, "registering an update twice");
    w.n.push_back(m);
  }
  // Dependencies are acyclic unless specified: lower nodes, lower updates.
  int back = g.coin(1, 4) ? g.range(1, 3) : 0;
  bool mayDirectCycle = g.coin(1, 10);
  int ops = g.range(4 * nn, 22 * nn);
  for(int k = 0; k < ops; ++k)
  {
    int a = g.range(0, nn - 1);
    auto & A = w.n[a];
    if(A.kind == KS) continue;
    switch(g.weighted({6, 1, 4, 7, 2, 1}))
    {
      case 0: // output -> update
      case 1:
      {
        int o = g.range(0, A.nOut() - 1), u = g.range(0, A.nUp() - 1);
        if(!A.upOk(u)) continue;
        if(!A.outStatOk(o))
        {
          REQUIRE_THROWS(A.node()->out(o, u), std::runtime_error, "dependency of a disabled output");
          g.log(a, ": refused output dependency");
        }
        else if(A.direct.count(o))
        {
          REQUIRE_THROWS(A.node()->out(o, u), std::runtime_error, "output dependency of an output with a direct dependency");
          g.log(a, ": refused output dependency");
        }
        else
        {
          int o2 = g.range(0, A.nOut() - 1);
          if(A.outStatOk(o2) && !A.direct.count(o2) && g.coin(1, 4))
          {
            g.log(a, ".{O", o, ",O", o2, "} -> U", u);
            A.node()->outs(o, o2, u);
            A.out[o2].insert(u);
          }
          else
          {
            g.log(a, ".O", o, " -> U", u);
            A.node()->out(o, u);
          }
          A.out[o].insert(u);
        }
        break;
      }
      case 2: // internal
      {
        int u = g.range(0, A.nUp() - 1), v = g.range(0, A.nUp() - 1);
        if(!A.upOk(u) || !A.upOk(v))
        {
          REQUIRE_THROWS(A.node()->internalDep(u, v), std::runtime_error, "internal dependency between disabled updates");
          continue;
        }
        if(u == v && !back) continue;
        if(u < v && !(back && g.coin(1, 5))) std::swap(u, v);
        g.log(a, ".U", u, " -> U", v);
        A.node()->internalDep(u, v);
        A.intern[u].insert(v);
        break;
      }
      case 3: // input
      {
        int b = g.range(0, nn - 1);
        bool backward = back && b >= a && g.coin(1, 5);
        if(b == a && !backward) continue;
        if(b > a && !backward)
        {
          // Here we break the symmetry in the other direction
          b = a == 0 ? 0 : b % a;
          if(a == 0) continue;
        }
        auto & B = w.n[b];
        int u = g.range(0, A.nUp() - 1);
        std::vector<int> os;
        int no = g.weighted({4, 2, 1}) + 1;
        for(int i = 0; i < no; ++i) os.push_back(g.range(0, B.nOut() - 1));
        bool ok = true;
        for(int o : os) ok = ok && B.outOk(o);
        bool shared = b < a && g.coin();
        if(no > 1 && B.kind == KD && (os[0] < 4) != (os[1] < 4)) g.tag("mixed output types");
        if(!A.upOk(u) || !ok)
        {
          REQUIRE_THROWS(w.addIn(a, u, b, os, shared), std::runtime_error, "input dependency on a disabled output, or for a disabled update");
          g.log(a, ": refused input dependency");
          g.tag("refused input");
          break;
        }
        g.logs(a, ".U", u, " -> ", b, ".{");
        for(int o : os) g.logs("O", o, " ");
        g.log("}", shared ? " shared" : "");
        w.addIn(a, u, b, os, shared);
        for(int o : os) A.in[u].insert({b, o});
        break;
      }
      case 4: // direct
      {
        int b = g.range(0, nn - 1);
        if(b >= a && !mayDirectCycle)
        {
          if(a == 0) continue;
          b = b % a;
        }
        auto & B = w.n[b];
        int o = g.range(0, A.nOut() - 1), i = g.range(0, B.nOut() - 1);
        bool shared = b < a && g.coin();
        if(!A.outStatOk(o) || !B.outOk(i) || A.used(o))
        {
          REQUIRE_THROWS(w.addDirect(a, o, b, i, shared), std::runtime_error, "illegal direct dependency");
          g.log(a, ": refused direct dependency");
          break;
        }
        g.log(a, ".O", o, " => ", b, ".O", i, shared ? " shared" : "");
        w.addDirect(a, o, b, i, shared);
        A.direct[o] = {b, i};
        break;
      }
      default: // run-time selection
      {
        if(A.kind != KSel) continue;
        int o = g.range(0, 3);
        bool dis = g.coin();
        if(dis)
        {
          A.sel->disable(o);
          A.dis.insert(o);
        }
        else
        {
          A.sel->enable(o);
          A.dis.erase(o);
        }
        g.log(a, dis ? ": disable O" : ": enable O", o);
      }
    }
  }

  // The requests
  int ni = g.range(1, 3);
  std::vector<std::shared_ptr<Inputs>> ins;
  std::vector<std::set<std::pair<int, int>>> req(ni);
  for(int i = 0; i < ni; ++i) ins.push_back(std::make_shared<Inputs>());
  std::vector<CallGraph> graphs(g.range(1, 2));
  std::vector<std::set<std::pair<int, int>>> have(graphs.size()); // what has been added to the graph since the last clear
  std::vector<std::set<std::pair<int, int>>> planned(graphs.size());
  std::vector<char> dead(graphs.size(), 0), stale(graphs.size(), 0);
  std::vector<std::set<int>> given(graphs.size()); // inputs given to the graph since the last clear
  int steps = g.range(2, 14);
  for(int k = 0; k < steps; ++k)
  {
    int j = g.range(0, ni - 1);
    int q = g.range(0, static_cast<int>(graphs.size()) - 1);
    auto & gr = graphs[q];
    switch(k == 0 ? 0 : g.weighted({5, 2, 1, 4, 2, 2}))
    {
      case 0: // request
      {
        int b = g.range(0, nn - 1);
        std::vector<int> os{g.range(0, w.n[b].nOut() - 1)};
        if(g.coin(1, 3)) os.push_back(g.range(0, w.n[b].nOut() - 1));
        bool shared = g.coin();
        bool ok = true;
        for(int o : os) ok = ok && w.n[b].outOk(o);
        if(!ok)
        {
          if(os.size() > 1) break;
          REQUIRE_THROWS(w.addReq(*ins[j], b, os, shared), std::runtime_error, "request of a disabled output");
          g.log("refused request");
          break;
        }
        g.logs("request in ", j, ":");
        for(int o : os) g.logs(" ", b, ".O", o);
        g.log("");
        w.addReq(*ins[j], b, os, shared);
        for(int o : os) req[j].insert({b, o});
        break;
      }
      case 1: // remove a request
      {
        if(req[j].empty()) break;
        auto it = req[j].begin();
        std::advance(it, g.range(0, static_cast<int>(req[j].size()) - 1));
        g.log("remove from ", j, ": ", it->first, ".O", it->second);
        w.remReq(*ins[j], it->first, it->second);
        req[j].erase(it);
        break;
      }
      case 2: // remove a source, or something absent
      {
        int b = g.range(0, nn - 1);
        bool has = false;
        for(auto & r : req[j]) has = has || r.first == b;
        if(!has)
        {
          REQUIRE_THROWS(w.remReq(*ins[j], b), std::runtime_error, "removing a source that is not there");
          REQUIRE_THROWS(w.remReq(*ins[j], b, 0), std::runtime_error, "removing an output of a source that is not there");
          break;
        }
        g.log("remove from ", j, ": ", b);
        w.remReq(*ins[j], b);
        for(auto it = req[j].begin(); it != req[j].end();)
          if(it->first == b)
            it = req[j].erase(it);
          else
            ++it;
        break;
      }
      case 3: // add to a graph
      {
        if(dead[q]) break;
        g.log("add ", j, " to graph ", q);
        auto p = have[q];
        p.insert(req[j].begin(), req[j].end());
        bool bad = false;
        for(auto & r : p) w.callsOf(r.first, r.second, bad);
        bool thrown = false;
        given[q].insert(j);
        try
        {
          gr.add(ins[j]);
        }
        catch(const std::logic_error &)
        {
          thrown = true;
        }
        if(thrown)
        {
          REQUIRE(w.plan(p).cyclic, "a request is refused while there is no cycle");
          g.tag("cycle");
          dead[q] = 1;
          break;
        }
        have[q] = p;
        stale[q] = 1;
        if(g.coin(4, 5)) [[fallthrough]];
        else break;
      }
      case 4: // update and run
      {
        if(dead[q]) break;
        auto p = w.plan(have[q]);
        if(p.cyclic)
        {
          REQUIRE_THROWS(gr.update(), std::logic_error, "update of a graph with a cycle");
          g.tag("cycle");
          g.log("cycle in graph ", q);
          dead[q] = 1;
          break;
        }
        g.log("run graph ", q);
        gr.update();
        planned[q] = have[q];
        stale[q] = 0;
        checkRun(gr, p);
        if(g.coin(1, 4)) checkRun(gr, p);
        int all = 0;
        for(auto & n : w.n) all += n.nUp();
        if(p.need.size() >= 4 && p.nDep >= 3 && static_cast<int>(p.need.size()) < all) g.nontrivial();
        break;
      }
      default: // clear
      {
        g.log("clear graph ", q);
        gr.clear();
        have[q].clear();
        planned[q].clear();
        dead[q] = 0;
        stale[q] = 0;
        checkRun(gr, Network::Plan{});
        given[q].clear();
        for(int i = 0; i < ni; ++i)
        {
          bool held = false;
          for(auto & v : given) held = held || v.count(i);
          REQUIRE(held || ins[i].use_count() == 1, "inputs ", i, " are kept alive by a cleared graph");
        }
      }
    }
    // Without update, the plan remains the one of the last update
    if(!dead[q] && stale[q] && g.coin(1, 4)) checkRun(gr, w.plan(planned[q]));
  }
}

PROPERTY(lifetime, 5000, 50000)
{
  // The nodes are only kept alive by the requests and by the nodes depending on them.
  int nn = g.range(1, 6);
  Network w;
  for(int i = 0; i < nn; ++i)
  {
    MNode m;
    m.kind = KN;
    m.n = std::make_shared<N>(i);
    for(int u = 0; u < 4; ++u) m.n->regUp(u);
    int no = g.range(1, 4);
    for(int o = 0; o < no; ++o)
    {
      int u = g.range(0, 3);
      m.n->out(o, u);
      m.out[o].insert(u);
    }
    w.n.push_back(m);
    if(i > 0)
    {
      int nd = g.range(0, 3);
      for(int k = 0; k < nd; ++k)
      {
        int u = g.range(0, 3), b = g.range(0, i - 1), o = g.range(0, 3);
        w.addIn(i, u, b, {o}, true);
        w.n[i].in[u].insert({b, o});
        g.log(i, ".U", u, " -> ", b, ".O", o);
      }
    }
  }
  std::unique_ptr<CallGraph> pgr;
  std::set<std::pair<int, int>> req;
  if(g.coin())
  {
    pgr = std::make_unique<CallGraph>();
    int ni = g.range(1, 2);
    for(int k = 0; k < ni; ++k)
    {
      auto in = std::make_shared<Inputs>();
      int nr = g.range(1, 3);
      for(int r = 0; r < nr; ++r)
      {
        int b = g.range(0, nn - 1), o = g.range(0, 3);
        w.addReq(*in, b, {o}, true);
        req.insert({b, o});
      }
      pgr->add(in);
    }
    pgr->update();
  }
  else
  {
    auto src = [&] { return g.range(0, nn - 1); };
    auto out = [&](int b)
    {
      int o = g.range(0, 3);
      req.insert({b, o});
      return static_cast<N::Output_>(o);
    };
    int a = src(), b = src(), c = src();
    auto A = w.n[a].n, B = w.n[b].n, C = w.n[c].n;
    auto a1 = out(a), a2 = a1, b1 = a1, b2 = a1, c1 = a1;
    switch(g.range(0, 4))
    {
      case 0:
        g.log("generateUpdateGraph(", a, ", ", static_cast<int>(a1), ")");
        pgr = tvm::utils::generateUpdateGraph(A, a1);
        break;
      case 1:
        a2 = out(a);
        g.log("generateUpdateGraph(", a, ", ", static_cast<int>(a1), ", ", static_cast<int>(a2), ")");
        pgr = tvm::utils::generateUpdateGraph(A, a1, a2);
        break;
      case 2:
        b1 = out(b);
        g.log("generateUpdateGraph(", a, ", ", static_cast<int>(a1), ", ", b, ", ", static_cast<int>(b1), ")");
        pgr = tvm::utils::generateUpdateGraph(A, a1, B, b1);
        break;
      case 3:
        a2 = out(a);
        b1 = out(b);
        b2 = out(b);
        g.log("generateUpdateGraph(", a, ", ", static_cast<int>(a1), ", ", static_cast<int>(a2), ", ", b, ", ", static_cast<int>(b1), ", ", static_cast<int>(b2), ")");
        pgr = tvm::utils::generateUpdateGraph(A, a1, a2, B, b1, b2);
        break;
      default:
        b1 = out(b);
        b2 = out(b);
        c1 = out(c);
        g.log("generateUpdateGraph(", a, ", ", static_cast<int>(a1), ", ", b, ", ", static_cast<int>(b1), ", ", static_cast<int>(b2), ", ", c, ", ", static_cast<int>(c1), ")");
        pgr = tvm::utils::generateUpdateGraph(A, a1, B, b1, b2, C, c1);
    }
  }
  CallGraph & gr = *pgr;
  for(auto & m : w.n) m.n.reset();
  auto p = w.plan(req);
  checkRun(gr, p);
  if(p.need.size() >= 3) g.nontrivial();
}

PROPERTY(sources, 20000, 200000)
{
  // What Inputs contain, and which sources they keep alive.
  int nn = g.range(1, 4);
  std::vector<std::shared_ptr<N>> own(static_cast<size_t>(nn));
  std::vector<std::weak_ptr<N>> weak;
  std::vector<N *> raw;
  for(auto & o : own)
  {
    o = std::make_shared<N>(static_cast<int>(weak.size()));
    weak.push_back(o);
    raw.push_back(o.get());
  }
  int ni = g.range(1, 2);
  std::vector<std::unique_ptr<Inputs>> in(static_cast<size_t>(ni));
  std::vector<std::vector<std::set<int>>> outs(in.size(), std::vector<std::set<int>>(own.size()));
  std::vector<std::vector<char>> kept(in.size(), std::vector<char>(own.size(), 0));
  for(auto & i : in) i = std::make_unique<Inputs>();
  using E = N::Output_;
  bool released = false, removed = false;
  for(int k = g.range(1, 20); k > 0; --k)
  {
    size_t j = static_cast<size_t>(g.range(0, ni - 1)), b = static_cast<size_t>(g.range(0, nn - 1));
    int op = g.weighted({5, 4, 2, 2, 1});
    auto & O = outs[j][b];
    if(!in[j] && op != 3) continue;
    switch(op)
    {
      case 0: // add
      {
        std::shared_ptr<N> s = weak[b].lock();
        if(!s) break;
        int n = g.range(1, 3), o1 = g.range(0, 3), o2 = g.range(0, 3), o3 = g.range(0, 3);
        // a source which is not kept alive by these inputs has to be ours
        bool byRef = own[b] && g.coin();
        g.log("add to ", j, byRef ? " by reference " : " ", b, ": ", o1, n > 1 ? " " + std::to_string(o2) : "", n > 2 ? " " + std::to_string(o3) : "");
        E e1 = static_cast<E>(o1), e2 = static_cast<E>(o2), e3 = static_cast<E>(o3);
        if(byRef)
        {
          if(n == 1)
            in[j]->addInput(*s, e1);
          else if(n == 2)
            in[j]->addInput(*s, e1, e2);
          else
            in[j]->addInput(*s, e1, e2, e3);
        }
        else
        {
          if(n == 1)
            in[j]->addInput(s, e1);
          else if(n == 2)
            in[j]->addInput(s, e1, e2);
          else
            in[j]->addInput(s, e1, e2, e3);
          kept[j][b] = 1;
        }
        O.insert(o1);
        if(n > 1) O.insert(o2);
        if(n > 2) O.insert(o3);
        break;
      }
      case 1: // remove outputs
      {
        if(O.empty())
        {
          REQUIRE_THROWS(in[j]->removeInput(raw[b], static_cast<E>(g.range(0, 3))), std::runtime_error, "source not there");
          break;
        }
        std::vector<int> l(O.begin(), O.end());
        int o1 = l[static_cast<size_t>(g.range(0, static_cast<int>(l.size()) - 1))], o2 = l[static_cast<size_t>(g.range(0, static_cast<int>(l.size()) - 1))];
        bool two = g.coin();
        g.log("remove from ", j, " ", b, ": ", o1, two ? " " + std::to_string(o2) : "");
        if(g.coin(1, 4) && O.size() < 4)
        {
          int a = 0;
          while(O.count(a)) ++a;
          REQUIRE_THROWS(in[j]->removeInput(raw[b], static_cast<E>(a)), std::runtime_error, "output not there");
        }
        if(two)
          in[j]->removeInput(raw[b], static_cast<E>(o1), static_cast<E>(o2));
        else
          in[j]->removeInput(raw[b], static_cast<E>(o1));
        O.erase(o1);
        if(two) O.erase(o2);
        if(O.empty()) kept[j][b] = 0;
        removed = true;
        break;
      }
      case 2: // remove a source
        g.log("remove from ", j, " ", b);
        if(O.empty())
        {
          REQUIRE_THROWS(in[j]->removeInput(raw[b]), std::runtime_error, "source not there");
          break;
        }
        in[j]->removeInput(raw[b]);
        O.clear();
        kept[j][b] = 0;
        removed = true;
        break;
      case 3: // release our own handle, when the inputs using it all have theirs
      {
        bool ok = true;
        for(size_t i = 0; i < in.size(); ++i) ok = ok && (outs[i][b].empty() || kept[i][b]);
        if(!ok) break;
        g.log("release ", b);
        own[b].reset();
        released = true;
        break;
      }
      default:
      {
        g.log("destroy inputs ", j);
        in[j].reset();
        for(auto & o : outs[j]) o.clear();
        for(auto & c : kept[j]) c = 0;
      }
    }
    for(size_t c = 0; c < own.size(); ++c)
    {
      bool alive = own[c] != nullptr;
      for(size_t i = 0; i < in.size(); ++i) alive = alive || kept[i][c];
      REQUIRE(weak[c].expired() == !alive, "source ", c);
      for(size_t i = 0; i < in.size(); ++i)
      {
        if(!in[i]) continue;
        auto it = in[i]->getInput(raw[c]);
        REQUIRE(static_cast<bool>(it) == !outs[i][c].empty(), "inputs ", i, " source ", c);
        if(it)
        {
          REQUIRE(it->first == raw[c]);
          REQUIRE(it->second == outs[i][c], "inputs ", i, " source ", c);
          REQUIRE(static_cast<bool>(in[i]->getInput(weak[c].lock())));
        }
      }
    }
  }
  if(released && removed) g.nontrivial();
}
