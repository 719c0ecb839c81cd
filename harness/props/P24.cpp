#include "lsproblem.h"
#include "td.h"
#include <iostream>
#include <set>
#include <sstream>
#include <tvm/constraint/BasicLinearConstraint.h>
#include <tvm/diagnostic/GraphProbe.h>
#include <tvm/diagnostic/matrix.h>
#include <tvm/function/BasicLinearFunction.h>
#include <tvm/function/IdentityFunction.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/internal/Inputs.h>
#include <tvm/graph/internal/Logger.h>

using namespace ls;
using F = tvm::function::abstract::Function;
using tvm::diagnostic::GraphProbe;
using tvm::graph::internal::Log;
using tvm::graph::internal::Logger;

const pbt::Info pbt::info = {
    "P24",
    "network: 1 to 7 nodes of two classes (one deriving from the other) with up to 6 outputs and 6 updates, random update, internal, input and direct dependencies, one or two call graphs; "
    "list of the output values of a graph or of an output, backward search with a random selection, dot and text outputs, compared with the declared dependencies and the values of the nodes. "
    "functions: values listed for linear and quadratic functions, linear constraints and linearized control problems, compared with the ones of the objects. "
    "logger: networks built while the log is enabled or not. matrix: address and range tests on blocks, maps and vectors. "
    "Non-trivial: a network of at least 3 nodes with a path through two of them; a problem with two tasks; a strict sub-block or a stride. Distinctness: the sequence of choices."};

namespace
{
/** The log is global and never cleaned: each case starts with an empty one.*/
void resetLog()
{
  const_cast<Log &>(Logger::logger().log()) = Log();
  Logger::logger().enable();
}

/** The probe writes on std::cout about the outputs without accessor.*/
struct Quiet
{
  std::ostringstream s;
  std::streambuf * b;
  Quiet() : b(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};

class N : public graph::abstract::Node<N>
{
public:
  SET_OUTPUTS(N, Alpha, Beta, Gamma, Delta)
  SET_UPDATES(N, UA, UB, UC, UD)
  int id;
  int nup = 0;
  std::vector<MatrixXd> v; // value of each output
  double d = 0;
  VariableVector vars;
  std::map<const Variable *, MatrixXd> byVar;
  explicit N(int i, bool early) : id(i)
  {
    if(early) // registered while the object is not a D yet
    {
      registerUpdates(Update::UA, &N::up);
      addOutputDependency(Output::Alpha, Update::UA);
    }
  }
  void up() { ++nup; }
  const MatrixXd & alpha() const { return v[0]; }
  MatrixXd beta() const { return v[1]; }
  MatrixConstRef gamma(const Variable & x) const { return byVar.at(&x); }
  double delta() const { return d; }
  const VariableVector & variables() const { return vars; }

  virtual int nOut() const { return 4; }
  virtual void regUp(int u) { registerUpdates(static_cast<N::Update_>(u), &N::up); }
  virtual void out(int o, int u) { addOutputDependency(static_cast<N::Output_>(o), static_cast<N::Update_>(u)); }
  virtual void internalDep(int u, int w) { addInternalDependency(static_cast<N::Update_>(u), static_cast<N::Update_>(w)); }
  template<typename U, typename S, typename O>
  void inT(U u, const S & s, O o)
  { addInputDependency(u, s, o); }
  template<typename O, typename S, typename I>
  void directT(O o, const S & s, I i)
  { addDirectDependency(o, s, i); }
};

class D : public N
{
public:
  SET_OUTPUTS(D, Epsilon, Zeta)
  SET_UPDATES(D, UE, UF)
  D(int i, bool early) : N(i, early) {}
  void upD() { nup += 2; }
  VectorXd epsilon() const noexcept { return v[4].col(0); }
  const MatrixXd & zeta() const { return v[5]; }
  MatrixXd beta2() const { return 2 * v[1]; }
  int nOut() const override { return 6; }
  template<typename F_>
  static void withO(int o, F_ && f)
  {
    if(o < 4)
      f(static_cast<N::Output_>(o));
    else
      f(static_cast<D::Output_>(o));
  }
  template<typename F_>
  static void withU(int u, F_ && f)
  {
    if(u < 4)
      f(static_cast<N::Update_>(u));
    else
      f(static_cast<D::Update_>(u));
  }
  void regUp(int u) override
  {
    if(u < 4)
      registerUpdates(static_cast<N::Update_>(u), &D::upD);
    else
      registerUpdates(static_cast<D::Update_>(u), &D::upD);
  }
  void out(int o, int u) override
  {
    withO(o, [&](auto oe) { withU(u, [&](auto ue) { addOutputDependency<D>(oe, ue); }); });
  }
  void internalDep(int u, int w) override
  {
    withU(u, [&](auto a) { withU(w, [&](auto b) { addInternalDependency<D>(a, b); }); });
  }
  template<typename U, typename S, typename O>
  void inD(U u, const S & s, O o)
  { addInputDependency<D>(u, s, o); }
  template<typename O, typename S, typename I>
  void directD(O o, const S & s, I i)
  { addDirectDependency<D>(o, s, i); }
};
using NPtr = std::shared_ptr<N>;
const char * const outName[] = {"Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta"};
const char * const upName[] = {"UA", "UB", "UC", "UD", "UE", "UF"};

/** Calls f(source of the right type, enum of output o)*/
template<typename F_>
void withSource(const NPtr & s, int o, F_ && f)
{
  if(auto d = std::dynamic_pointer_cast<D>(s))
    D::withO(o, [&](auto oe) { f(d, oe); });
  else
    f(s, static_cast<N::Output_>(o));
}

using Out = std::pair<int, int>; // node, output or update
struct MNode
{
  NPtr p;
  bool isD = false, early = false;
  std::map<int, std::set<int>> outUp;            // output -> updates
  std::map<int, Out> direct;                     // output -> output of another node
  std::map<int, std::set<int>> internal;         // update -> updates
  std::map<int, std::set<Out>> inputs;           // update -> outputs of other nodes
  std::set<int> ups;
};

struct Net
{
  Gen & g;
  std::vector<MNode> ns;
  std::vector<VariablePtr> xs;
  // accessors registered for N and D
  bool accN[4] = {}, accD[6] = {};
  bool beta2 = false;

  int nUp(const MNode & n) const { return n.isD ? 6 : 4; }
  int index(std::uintptr_t a) const
  {
    for(size_t i = 0; i < ns.size(); ++i)
      if(reinterpret_cast<std::uintptr_t>(ns[i].p.get()) == a) return static_cast<int>(i);
    return -1;
  }
  Out out(const Log::Output & o) const
  {
    int i = index(o.owner.value);
    REQUIRE(i >= 0, "output of an unknown node");
    bool inD = o.id.type == std::type_index(typeid(D::Output_));
    REQUIRE(inD || o.id.type == std::type_index(typeid(N::Output_)), "output of an unknown type");
    REQUIRE(o.id.value >= (inD ? 4 : 0) && o.id.value < (inD ? 6 : 4), "output ", o.id.value);
    REQUIRE(o.name == outName[o.id.value], "output ", o.name, " instead of ", outName[o.id.value]);
    return {i, o.id.value};
  }
  Out up(const Log::Update & u) const
  {
    int i = index(u.owner.value);
    REQUIRE(i >= 0, "update of an unknown node");
    REQUIRE(u.name == upName[u.id.value], "update ", u.name, " instead of ", upName[u.id.value]);
    return {i, u.id.value};
  }
  Log::Output logOutput(const Out & o) const
  {
    const NPtr & p = ns[static_cast<size_t>(o.first)].p;
    if(o.second < 4)
      return {Log::EnumValue(static_cast<N::Output_>(o.second)), outName[o.second], Log::Pointer(p.get())};
    else
      return {Log::EnumValue(static_cast<D::Output_>(o.second)), outName[o.second], Log::Pointer(p.get())};
  }

  void randomize()
  {
    for(auto & n : ns)
    {
      n.p->v.clear();
      for(int o = 0; o < 6; ++o)
      {
        int c = g.range(1, 3);
        n.p->v.push_back(g.bulk(g.range(1, 3), c, 4));
        if(g.coin(1, 12)) n.p->v.back()(0, 0) = std::numeric_limits<double>::quiet_NaN();
      }
      n.p->d = g.generic(4);
      for(auto & x : n.p->vars) n.p->byVar[x.get()] = g.bulk(g.range(1, 3), x->size(), 4);
    }
  }

  void addOut(int i, int o)
  {
    MNode & n = ns[static_cast<size_t>(i)];
    switch(g.weighted({5, i ? 3 : 0, 2}))
    {
      case 0:
      {
        int k = g.range(1, 2);
        for(int q = 0; q < k; ++q)
        {
          int u = g.range(0, nUp(n) - 1);
          if(!n.ups.count(u) || n.outUp[o].count(u)) continue;
          g.log("n", i, ": ", outName[o], " from ", upName[u]);
          n.p->out(o, u);
          n.outUp[o].insert(u);
        }
        if(n.outUp[o].empty()) n.outUp.erase(o);
        break;
      }
      case 1:
      {
        Out s = source(i);
        g.log("n", i, ": ", outName[o], " is ", outName[s.second], " of n", s.first);
        withSource(ns[static_cast<size_t>(s.first)].p, s.second,
                   [&](const auto & src, auto e)
                   {
                     if(auto d = std::dynamic_pointer_cast<D>(n.p))
                       D::withO(o, [&](auto oe) { d->directD(oe, src, e); });
                     else
                       n.p->directT(static_cast<N::Output_>(o), src, e);
                   });
        n.direct[o] = s;
        break;
      }
      default: // output without dependency
        break;
    }
  }
  Out source(int i)
  {
    int j = g.range(0, i - 1);
    return {j, g.range(0, ns[static_cast<size_t>(j)].p->nOut() - 1)};
  }

  void generate()
  {
    for(int i = 0; i < 3; ++i) xs.push_back(Space(g.range(1, 3)).createVariable("var" + std::to_string(i)));
    int n = g.range(1, 7);
    for(int i = 0; i < n; ++i)
    {
      MNode m;
      m.isD = g.coin();
      m.early = g.coin(1, 3);
      g.log("n", i, " is ", m.isD ? "D" : "N", m.early ? ", with a first output in its constructor" : "");
      if(m.isD)
        m.p = std::make_shared<D>(i, m.early);
      else
        m.p = std::make_shared<N>(i, m.early);
      for(auto & x : xs)
        if(g.coin()) m.p->vars.add(x);
      ns.push_back(m);
      MNode & M = ns.back();
      if(M.early)
      {
        M.ups.insert(0);
        M.outUp[0].insert(0);
      }
      for(int u = 0; u < nUp(M); ++u)
      {
        if(M.ups.count(u) || g.coin(1, 3)) continue;
        M.p->regUp(u);
        M.ups.insert(u);
      }
      for(int u : M.ups)
      {
        for(int w : M.ups)
          if(w < u && g.coin(1, 5))
          {
            g.log("n", i, ": ", upName[u], " after ", upName[w]);
            M.p->internalDep(u, w);
            M.internal[u].insert(w);
          }
        if(i == 0) continue;
        int k = g.range(0, 2);
        for(int q = 0; q < k; ++q)
        {
          Out s = source(i);
          if(!M.inputs[u].insert(s).second) continue;
          g.log("n", i, ": ", upName[u], " needs ", outName[s.second], " of n", s.first);
          withSource(ns[static_cast<size_t>(s.first)].p, s.second,
                     [&](const auto & src, auto e)
                     {
                       if(auto d = std::dynamic_pointer_cast<D>(M.p))
                         D::withU(u, [&](auto ue) { d->inD(ue, src, e); });
                       else
                         M.p->inT(static_cast<N::Update_>(u), src, e);
                     });
        }
      }
      for(int o = M.early ? 1 : 0; o < M.p->nOut(); ++o) addOut(i, o);
    }
    randomize();
  }

  void registerAccessors(GraphProbe & gp)
  {
    for(int o = 0; o < 4; ++o) accN[o] = g.coin(3, 4);
    for(int o = 0; o < 6; ++o) accD[o] = g.coin(3, 4);
    beta2 = g.coin();
    auto conv = [](double x) { return MatrixXd::Constant(1, 1, x); };
    if(accN[0]) gp.registerAccessor<N>(N::Output::Alpha, &N::alpha);
    if(accN[1]) gp.registerAccessor<N>(N::Output::Beta, &N::beta);
    if(accN[2]) gp.registerAccessor<N>(N::Output::Gamma, &N::gamma);
    if(accN[3]) gp.registerAccessor<N>(N::Output::Delta, &N::delta, conv);
    if(accD[0]) gp.registerAccessor<D>(D::Output::Alpha, &D::alpha);
    if(accD[1]) gp.registerAccessor<D>(D::Output::Beta, beta2 ? &D::beta2 : static_cast<MatrixXd (D::*)() const>(&D::beta));
    if(accD[2]) gp.registerAccessor<D>(D::Output::Gamma, &D::gamma);
    if(accD[3]) gp.registerAccessor<D>(D::Output::Delta, &D::delta, conv);
    if(accD[4]) gp.registerAccessor<D>(D::Output::Epsilon, &D::epsilon);
    if(accD[5]) gp.registerAccessor<D>(D::Output::Zeta, &D::zeta);
    for(int o = 0; o < 4; ++o) g.logs(accN[o]);
    g.logs(" ");
    for(int o = 0; o < 6; ++o) g.logs(accD[o]);
    g.log(" accessors", beta2 ? " beta2" : "");
  }

  using Vals = std::vector<std::pair<const Variable *, MatrixXd>>;
  /** Values of an output. known is false if there is no accessor.*/
  Vals values(const Out & o, bool & known) const
  {
    const MNode & n = ns[static_cast<size_t>(o.first)];
    bool two = false;
    if(n.isD)
    {
      known = accD[o.second];
      two = known && beta2;
      // The accessor of the base class is used for outputs known as such
      if(!known && n.early && o.second == 0) known = accN[0];
    }
    else
      known = accN[o.second];
    if(!known) return {};
    switch(o.second)
    {
      case 1:
        return {{nullptr, two ? MatrixXd(2 * n.p->v[1]) : n.p->v[1]}};
      case 2:
      {
        Vals r;
        for(auto & x : n.p->vars) r.push_back({x.get(), n.p->byVar.at(x.get())});
        return r;
      }
      case 3:
        return {{nullptr, MatrixXd::Constant(1, 1, n.p->d)}};
      case 4:
        return {{nullptr, n.p->v[4].col(0)}};
      default:
        return {{nullptr, n.p->v[static_cast<size_t>(o.second)]}};
    }
  }

  void reach(const Out & o, std::set<Out> & outs, std::set<Out> & ups) const
  {
    if(!outs.insert(o).second) return;
    const MNode & n = ns[static_cast<size_t>(o.first)];
    if(auto it = n.direct.find(o.second); it != n.direct.end()) reach(it->second, outs, ups);
    if(auto it = n.outUp.find(o.second); it != n.outUp.end())
      for(int u : it->second) reachUp({o.first, u}, outs, ups);
  }
  void reachUp(const Out & u, std::set<Out> & outs, std::set<Out> & ups) const
  {
    if(!ups.insert(u).second) return;
    const MNode & n = ns[static_cast<size_t>(u.first)];
    if(auto it = n.internal.find(u.second); it != n.internal.end())
      for(int w : it->second) reachUp({u.first, w}, outs, ups);
    if(auto it = n.inputs.find(u.second); it != n.inputs.end())
      for(auto & o : it->second) reach(o, outs, ups);
  }

  static bool same(const MatrixXd & a, const MatrixXd & b)
  {
    if(a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for(Eigen::Index i = 0; i < a.size(); ++i)
      if(!(a(i) == b(i)) && !(std::isnan(a(i)) && std::isnan(b(i)))) return false;
    return true;
  }

  void checkList(const std::vector<GraphProbe::OutputVal> & l, const std::set<Out> & outs) const
  {
    std::map<Out, Vals> got;
    for(auto & v : l) got[out(std::get<0>(v))].push_back({std::get<1>(v).get(), std::get<2>(v)});
    for(auto & p : got) REQUIRE(outs.count(p.first), outName[p.first.second], " of n", p.first.first, " should not be listed");
    for(auto & o : outs)
    {
      bool known;
      Vals e = values(o, known);
      Vals r = got.count(o) ? got[o] : Vals{};
      auto name = [&] { return std::string(outName[o.second]) + " of n" + std::to_string(o.first); };
      REQUIRE(e.size() == r.size(), r.size(), " values for ", name(), ", expected ", e.size());
      for(size_t i = 0; i < e.size(); ++i)
      {
        REQUIRE(e[i].first == r[i].first, "variable ", i, " of ", name());
        REQUIRE(same(e[i].second, r[i].second), "value ", i, " of ", name(), " is ", r[i].second, ", expected ", e[i].second);
      }
    }
  }

  /** Number of output and update nodes*/
  std::pair<int, int> checkTree(const GraphProbe::ProbeNode & t, const std::function<bool(const MatrixXd &)> & sel) const
  {
    std::map<Out, int> expO, seenO, expU, seenU;
    walk(t, sel, seenO, expO, seenU, expU);
    int a = 0, b = 0;
    for(auto & p : seenO)
    {
      a += p.second;
      bool known;
      bool pass = false;
      for(auto & v : values(p.first, known)) pass = pass || sel(v.second);
      const MNode & n = ns[static_cast<size_t>(p.first.first)];
      bool deps = n.direct.count(p.first.second) || n.outUp.count(p.first.second);
      int e = pass && deps ? 1 : 0;
      REQUIRE(expO[p.first] == e, outName[p.first.second], " of n", p.first.first, " developed ", expO[p.first], " times, expected ", e);
    }
    for(auto & p : seenU)
    {
      b += p.second;
      const MNode & n = ns[static_cast<size_t>(p.first.first)];
      auto i = n.internal.find(p.first.second);
      auto j = n.inputs.find(p.first.second);
      bool deps = (i != n.internal.end() && !i->second.empty()) || (j != n.inputs.end() && !j->second.empty());
      REQUIRE(expU[p.first] == (deps ? 1 : 0), upName[p.first.second], " of n", p.first.first, " developed ", expU[p.first], " times");
    }
    return {a, b};
  }
  void walk(const GraphProbe::ProbeNode & t,
            const std::function<bool(const MatrixXd &)> & sel,
            std::map<Out, int> & seenO,
            std::map<Out, int> & expO,
            std::map<Out, int> & seenU,
            std::map<Out, int> & expU) const
  {
    std::multiset<Out> co, cu, eo, eu;
    for(auto & c : t.children)
    {
      REQUIRE(c != nullptr, "null child");
      if(c->val.index() == 0)
        co.insert(out(mpark::get<GraphProbe::Output>(c->val)));
      else
        cu.insert(up(mpark::get<GraphProbe::Update>(c->val)));
      walk(*c, sel, seenO, expO, seenU, expU);
    }
    bool isO = t.val.index() == 0;
    Out o = isO ? out(mpark::get<GraphProbe::Output>(t.val)) : up(mpark::get<GraphProbe::Update>(t.val));
    const MNode & n = ns[static_cast<size_t>(o.first)];
    ++(isO ? seenO : seenU)[o];
    if(t.children.empty()) return;
    ++(isO ? expO : expU)[o];
    if(isO)
    {
      if(auto it = n.direct.find(o.second); it != n.direct.end()) eo.insert(it->second);
      if(auto it = n.outUp.find(o.second); it != n.outUp.end())
        for(int u : it->second) eu.insert({o.first, u});
    }
    else
    {
      if(auto it = n.internal.find(o.second); it != n.internal.end())
        for(int w : it->second) eu.insert({o.first, w});
      if(auto it = n.inputs.find(o.second); it != n.inputs.end())
        for(auto & s : it->second) eo.insert(s);
    }
    REQUIRE(co == eo && cu == eu, "children of ", isO ? outName[o.second] : upName[o.second], " of n", o.first);
  }

  std::string suffix(const Out & o, bool isOut, bool asInput = false) const
  {
    return std::to_string(reinterpret_cast<std::uintptr_t>(ns[static_cast<size_t>(o.first)].p.get())) + (isOut ? (asInput ? "_in" : "_out") : "_up")
           + (isOut ? outName[o.second] : upName[o.second]);
  }
};

size_t countOf(const std::string & s, const std::string & p)
{
  size_t n = 0;
  for(size_t i = s.find(p); i != std::string::npos; i = s.find(p, i + p.size())) ++n;
  return n;
}

bool endsWith(const std::string & s, const std::string & e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

struct Edge
{
  std::string from, to;
  bool colored;
};

/** Compares the edges of a dot description with the expected ones (given by the ends of the names).*/
void checkEdges(const std::string & dot, std::vector<Edge> expected)
{
  std::istringstream is(dot);
  std::string line;
  while(std::getline(is, line))
  {
    auto p = line.find("->");
    if(p == std::string::npos) continue;
    std::string a = line.substr(0, p), b = line.substr(p + 2, line.find_first_of("; ", p) - p - 2);
    bool col = line.find("color=orange") != std::string::npos;
    auto it = std::find_if(expected.begin(), expected.end(), [&](const Edge & e) { return endsWith(a, e.from) && endsWith(b, e.to) && e.colored == col; });
    REQUIRE(it != expected.end(), "unexpected edge ", line);
    expected.erase(it);
  }
  REQUIRE(expected.empty(), "missing edge ", expected.front().from, "->", expected.front().to, expected.front().colored ? " in orange" : "");
}
} // namespace

PROPERTY(network, 10000, 150000)
{
  resetLog();
  Quiet quiet;
  Net net{g, {}, {}};
  net.generate();
  GraphProbe gp;
  net.registerAccessors(gp);

  // graphs
  struct G
  {
    graph::CallGraph g;
    std::vector<std::shared_ptr<graph::internal::Inputs>> in;
    std::vector<Out> req;
    bool logged = false;
  };
  std::vector<std::unique_ptr<G>> gs;
  int ng = g.range(1, 2);
  for(int k = 0; k < ng; ++k)
  {
    gs.push_back(std::make_unique<G>());
    G & gr = *gs.back();
    int ni = g.range(0, 2);
    for(int q = 0; q < ni; ++q)
    {
      auto in = std::make_shared<graph::internal::Inputs>();
      std::set<Out> req;
      int no = g.range(1, 3);
      for(int r = 0; r < no; ++r)
      {
        Out s = net.source(static_cast<int>(net.ns.size()));
        if(g.coin()) s.first = static_cast<int>(net.ns.size()) - 1;
        s.second %= net.ns[static_cast<size_t>(s.first)].p->nOut();
        if(!req.insert(s).second) continue;
        g.log("graph ", k, " needs ", outName[s.second], " of n", s.first);
        withSource(net.ns[static_cast<size_t>(s.first)].p, s.second, [&](const auto & src, auto e) { in->addInput(src, e); });
        gr.req.push_back(s);
      }
      gr.g.add(in);
      gr.in.push_back(in);
      gr.logged = true;
    }
    gr.g.update();
    if(g.coin()) gr.g.execute();
  }
  std::vector<int> ups;
  for(auto & n : net.ns) ups.push_back(n.p->nup);

  int rounds = g.range(1, 2);
  bool deep = false;
  for(int r = 0; r < rounds; ++r)
  {
    if(r) net.randomize();
    std::function<bool(const MatrixXd &)> sel;
    switch(g.range(0, 3))
    {
      case 0:
        sel = [](const MatrixXd &) { return true; };
        g.log("all");
        break;
      case 1:
      {
        double a = std::abs(g.real(3)), b = a + std::abs(g.real(3));
        g.log("with elements in ", a, ", ", b);
        sel = GraphProbe::absInRange(a, b);
        // checked on its own below
        auto ref = [a, b](const MatrixXd & M)
        {
          for(Eigen::Index i = 0; i < M.size(); ++i)
            if(std::abs(M(i)) >= a && std::abs(M(i)) <= b) return true;
          return false;
        };
        MatrixXd M = g.bulk(2, 2, 4);
        REQUIRE(sel(M) == ref(M), "elements in range");
        break;
      }
      case 2:
        g.log("with nan");
        sel = [](const MatrixXd & M) { return GraphProbe::hasNan(M); };
        break;
      default:
      {
        double a = g.real(2);
        g.log("first element greater than ", a);
        sel = [a](const MatrixXd & M) { return M(0, 0) > a || std::isnan(M(0, 0)); };
      }
    }
    for(auto & pg : gs)
    {
      G & gr = *pg;
      std::set<Out> outs, us;
      for(auto & o : gr.req) net.reach(o, outs, us);
      net.checkList(gp.listOutputVal(&gr.g, g.coin(1, 4)), outs);
      std::set<int> nodes;
      for(auto & o : outs) nodes.insert(o.first);
      if(nodes.size() > 2) deep = true;

      auto sub = Logger::logger().log().subGraph(&gr.g);
      {
        std::multiset<Out> a, b;
        for(auto & o : sub.first) a.insert(net.out(o));
        for(auto & u : sub.second) b.insert(net.up(u));
        REQUIRE(a == std::multiset<Out>(outs.begin(), outs.end()), "outputs of the subgraph");
        REQUIRE(b == std::multiset<Out>(us.begin(), us.end()), "updates of the subgraph");
      }

      if(!gr.logged)
      {
        REQUIRE_THROWS(gp.followUp(&gr.g, sel), std::runtime_error);
        REQUIRE(Logger::logger().log().generateDot(&gr.g).empty(), "dot for a graph which is not in the log");
        continue;
      }
      auto trees = gp.followUp(&gr.g, sel);
      std::multiset<Out> roots, expected;
      int no = 0, nu = 0;
      for(auto & t : trees)
      {
        REQUIRE(t && t->val.index() == 0, "the root is not an output");
        roots.insert(net.out(mpark::get<GraphProbe::Output>(t->val)));
        auto c = net.checkTree(*t, sel);
        no += c.first;
        nu += c.second;
      }
      for(auto & o : gr.req)
      {
        bool known, pass = false;
        for(auto & v : net.values(o, known)) pass = pass || sel(v.second);
        if(pass) expected.insert(o);
      }
      REQUIRE(roots == expected, "starting points of the search");
      std::ostringstream os;
      gp.print(os, trees);
      REQUIRE(countOf(os.str(), "* Output ") == static_cast<size_t>(no) && countOf(os.str(), "computed by update ") == static_cast<size_t>(nu), "text has ",
              countOf(os.str(), "* Output "), " outputs and ", countOf(os.str(), "computed by update "), " updates, expected ", no, " and ", nu);

      // drawing
      auto edges = [&](bool all)
      {
        std::vector<Edge> e;
        for(size_t i = 0; i < net.ns.size(); ++i)
        {
          const MNode & n = net.ns[i];
          auto at = [&](int k) { return Out{static_cast<int>(i), k}; };
          for(auto & p : n.outUp)
            for(int u : p.second) e.push_back({net.suffix(at(u), false), net.suffix(at(p.first), true), all && us.count(at(u)) && outs.count(at(p.first))});
          for(auto & p : n.direct) e.push_back({net.suffix(p.second, true), net.suffix(at(p.first), true), all && outs.count(p.second) && outs.count(at(p.first))});
          for(auto & p : n.internal)
            for(int u : p.second) e.push_back({net.suffix(at(u), false), net.suffix(at(p.first), false), all && us.count(at(u)) && us.count(at(p.first))});
          for(auto & p : n.inputs)
            for(auto & o : p.second) e.push_back({net.suffix(o, true), net.suffix(at(p.first), false), all && outs.count(o) && us.count(at(p.first))});
        }
        return e;
      };
      std::string dot = Logger::logger().log().generateDot(&gr.g);
      checkEdges(dot, edges(true));
      checkEdges(Logger::logger().log().generateDot(), edges(false));
      {
        size_t n = 0;
        std::istringstream is(dot);
        std::string line;
        while(std::getline(is, line))
          if(line.find("->") == std::string::npos && line.find("color=orange") != std::string::npos) ++n;
        REQUIRE(n == outs.size() + us.size(), n, " elements highlighted, expected ", outs.size() + us.size());
      }
    }

    // a node
    {
      int i = g.range(0, static_cast<int>(net.ns.size()) - 1);
      const MNode & n = net.ns[static_cast<size_t>(i)];
      std::vector<Edge> e;
      auto at = [&](int k) { return Out{i, k}; };
      for(auto & p : n.outUp)
        for(int u : p.second) e.push_back({net.suffix(at(u), false), net.suffix(at(p.first), true), false});
      for(auto & p : n.direct) e.push_back({net.suffix(p.second, true, true), net.suffix(at(p.first), true), false});
      for(auto & p : n.internal)
        for(int u : p.second) e.push_back({net.suffix(at(u), false), net.suffix(at(p.first), false), false});
      for(auto & p : n.inputs)
        for(auto & o : p.second) e.push_back({net.suffix(o, true, true), net.suffix(at(p.first), false), false});
      checkEdges(Logger::logger().log().generateDot(Log::Pointer(n.p.get())), e);
    }

    // an output
    Out s = net.source(static_cast<int>(net.ns.size()));
    g.log("from ", outName[s.second], " of n", s.first);
    std::set<Out> outs, us;
    net.reach(s, outs, us);
    auto l = gp.listOutputVal(net.logOutput(s));
    // The base class accessor depends on how the output is described by the user
    const MNode & n = net.ns[static_cast<size_t>(s.first)];
    bool ambiguous = n.isD && n.early && s.second == 0 && !net.accD[0] && net.accN[0];
    if(!ambiguous)
    {
      net.checkList(l, outs);
      auto t = gp.followUp(net.logOutput(s), sel);
      REQUIRE(t && t->val.index() == 0 && net.out(mpark::get<GraphProbe::Output>(t->val)) == s, "root");
      net.checkTree(*t, sel);
      // text
      std::ostringstream os;
      os << l;
      std::istringstream is(os.str());
      std::string line;
      std::vector<double> x, y;
      std::vector<std::string> names;
      while(std::getline(is, line))
      {
        if(line.empty()) continue;
        if(line.back() == ':')
        {
          names.push_back(line);
          continue;
        }
        std::istringstream ls(line);
        std::string w;
        while(ls >> w) x.push_back(std::strtod(w.c_str(), nullptr));
      }
      REQUIRE(names.size() == l.size(), names.size(), " titles for ", l.size(), " values");
      for(size_t i = 0; i < l.size(); ++i)
      {
        const auto & M = std::get<MatrixXd>(l[i]);
        const auto & v = std::get<VariablePtr>(l[i]);
        for(Eigen::Index a = 0; a < M.rows(); ++a)
          for(Eigen::Index b = 0; b < M.cols(); ++b) y.push_back(M(a, b));
        REQUIRE(names[i].find(std::get<0>(l[i]).name) != std::string::npos, "title ", names[i]);
        if(v) REQUIRE(names[i].find("variable " + v->name() + ":") != std::string::npos, "title ", names[i]);
      }
      REQUIRE(x.size() == y.size(), x.size(), " numbers, expected ", y.size());
      for(size_t i = 0; i < x.size(); ++i)
        REQUIRE((std::isnan(x[i]) && std::isnan(y[i])) || std::abs(x[i] - y[i]) <= 1e-4 * (1 + std::abs(y[i])), "number ", i, " is ", x[i], ", expected ", y[i]);
    }
  }
  for(size_t i = 0; i < ups.size(); ++i) REQUIRE(net.ns[i].p->nup == ups[i], "an update of n", i, " was called");
  if(net.ns.size() >= 3 && deep) g.nontrivial();
}

namespace
{
/** Finds the entries of an object and compares their values.*/
struct Found
{
  std::vector<const GraphProbe::OutputVal *> v;
  Found(const std::vector<GraphProbe::OutputVal> & l, const void * p, const std::string & name)
  {
    for(auto & e : l)
      if(std::get<0>(e).owner.value == reinterpret_cast<std::uintptr_t>(p) && std::get<0>(e).name == name) v.push_back(&e);
  }
};

void checkVec(const std::vector<GraphProbe::OutputVal> & l, const void * p, const char * name, const VectorXd & x)
{
  Found f(l, p, name);
  REQUIRE(f.v.size() == 1, f.v.size(), " entries for ", name);
  REQUIRE(!std::get<1>(*f.v[0]) && Net::same(std::get<2>(*f.v[0]), x), name, " is ", std::get<2>(*f.v[0]).transpose(), ", expected ", x.transpose());
}
template<typename Get>
void checkMat(const std::vector<GraphProbe::OutputVal> & l, const void * p, const char * name, const VariableVector & vars, Get && get)
{
  Found f(l, p, name);
  REQUIRE(static_cast<int>(f.v.size()) == vars.numberOfVariables(), f.v.size(), " entries for ", name);
  for(int i = 0; i < vars.numberOfVariables(); ++i)
  {
    const Variable & x = *vars[i];
    REQUIRE(std::get<1>(*f.v[static_cast<size_t>(i)]).get() == &x, "variable of ", name);
    REQUIRE(Net::same(std::get<2>(*f.v[static_cast<size_t>(i)]), get(x)), name, " for ", x.name());
  }
}
template<typename F_>
void checkFun(const std::vector<GraphProbe::OutputVal> & l, const F_ & f, int mask)
{
  if(mask & 1) checkVec(l, &f, "Value", f.value());
  if(mask & 2) checkMat(l, &f, "Jacobian", f.variables(), [&](const Variable & x) { return MatrixXd(f.jacobian(x)); });
  if(mask & 4) checkVec(l, &f, "Velocity", f.velocity());
  if(mask & 8) checkVec(l, &f, "NormalAcceleration", f.normalAcceleration());
  if(mask & 16) checkMat(l, &f, "JDot", f.variables(), [&](const Variable & x) { return MatrixXd(f.JDot(x)); });
}
template<typename F_>
void need(graph::internal::Inputs & in, const std::shared_ptr<F_> & f, int mask)
{
  if(mask & 1) in.addInput(f, F::Output::Value);
  if(mask & 2) in.addInput(f, F::Output::Jacobian);
  if(mask & 4) in.addInput(f, F::Output::Velocity);
  if(mask & 8) in.addInput(f, F::Output::NormalAcceleration);
  if(mask & 16) in.addInput(f, F::Output::JDot);
}
} // namespace

PROPERTY(functions, 8000, 100000)
{
  resetLog();
  Quiet quiet;
  World w;
  w.generate(g, 3, 3, true, 3, 2);
  w.setAll(g);
  GraphProbe gp;
  gp.registerTVMFunction<QuadFun>();

  if(g.coin())
  {
    auto in = std::make_shared<graph::internal::Inputs>();
    graph::CallGraph gr;
    std::vector<std::function<void(const std::vector<GraphProbe::OutputVal> &)>> checks;
    std::set<std::pair<std::uintptr_t, std::string>> wanted;
    int n = g.range(1, 3);
    auto want = [&](const void * p, int mask)
    {
      const char * names[] = {"Value", "Jacobian", "Velocity", "NormalAcceleration", "JDot"};
      for(int k = 0; k < 5; ++k)
        if(mask & (1 << k)) wanted.insert({reinterpret_cast<std::uintptr_t>(p), names[k]});
    };
    for(int i = 0; i < n; ++i)
    {
      int mask = g.range(1, 31);
      std::vector<VariablePtr> x;
      for(auto & q : w.disjoint(g, g.range(1, 3), 0)) x.push_back(q.p);
      int m = g.range(1, 3);
      switch(g.range(0, 3))
      {
        case 0:
        {
          auto f = genQuad(g, m, x);
          g.log("quadratic function, outputs ", mask);
          need(*in, f, mask);
          want(f.get(), mask);
          checks.push_back([f, mask](const auto & l) { checkFun(l, *f, mask); });
          break;
        }
        case 1:
        {
          std::vector<MatrixXd> A;
          std::vector<MatrixConstRef> R;
          for(auto & v : x) A.push_back(g.bulk(m, v->size()));
          for(auto & a : A) R.push_back(a);
          auto f = std::make_shared<function::BasicLinearFunction>(R, x, g.bulkVec(m));
          g.log("linear function, outputs ", mask);
          need(*in, f, mask);
          want(f.get(), mask);
          checks.push_back([f, mask](const auto & l) { checkFun(l, *f, mask); });
          break;
        }
        case 2:
        {
          auto f = std::make_shared<function::IdentityFunction>(x[0]);
          g.log("identity function, outputs ", mask);
          need(*in, f, mask);
          want(f.get(), mask);
          checks.push_back([f, mask](const auto & l) { checkFun(l, *f, mask); });
          break;
        }
        default:
        {
          auto c = std::make_shared<constraint::BasicLinearConstraint>(MatrixXd(g.bulk(m, x[0]->size())), x[0], VectorXd(g.bulkVec(m)),
                                                                      g.coin() ? constraint::Type::EQUAL : constraint::Type::LOWER_THAN);
          bool eq = c->type() == constraint::Type::EQUAL;
          g.log("linear constraint");
          using C = constraint::abstract::Constraint;
          in->addInput(c, C::Output::Value);
          in->addInput(c, C::Output::Jacobian);
          if(eq)
            in->addInput(c, C::Output::E);
          else
            in->addInput(c, C::Output::U);
          want(c.get(), 3);
          wanted.insert({reinterpret_cast<std::uintptr_t>(c.get()), eq ? "E" : "U"});
          checks.push_back(
              [c, eq](const auto & l)
              {
                checkVec(l, c.get(), "Value", c->value());
                checkMat(l, c.get(), "Jacobian", c->variables(), [&](const Variable & x) { return MatrixXd(c->jacobian(x)); });
                checkVec(l, c.get(), eq ? "E" : "U", eq ? c->e() : c->u());
              });
        }
      }
    }
    gr.add(in);
    gr.update();
    for(int r = 0; r < 2; ++r)
    {
      if(r) w.setAll(g);
      gr.execute();
      auto l = gp.listOutputVal(&gr);
      for(auto & c : checks) c(l);
      std::set<std::tuple<std::uintptr_t, std::string, const Variable *>> once;
      for(auto & e : l)
        REQUIRE(once.insert({std::get<0>(e).owner.value, std::get<0>(e).name, std::get<1>(e).get()}).second, std::get<0>(e).name, " is listed twice");
      // all the starting points
      auto t = gp.followUp(&gr);
      REQUIRE(t.size() == wanted.size(), t.size(), " trees, expected ", wanted.size());
      for(auto & p : t)
      {
        const auto & o = mpark::get<GraphProbe::Output>(p->val);
        REQUIRE(wanted.count({o.owner.value, o.name}), "unexpected starting point ", o.name);
      }
    }
    if(n > 1) g.nontrivial();
    return;
  }
  // control problem
  LinearizedControlProblem pb;
  struct T
  {
    std::shared_ptr<F> f;
    TaskWithRequirementsPtr t;
    bool second;
  };
  std::vector<T> ts;
  int n = g.range(1, 3);
  for(int i = 0; i < n; ++i)
  {
    std::vector<VariablePtr> x;
    for(auto & q : w.disjoint(g, g.range(1, 2), 0)) x.push_back(q.p);
    int m = g.range(1, 3);
    bool second = g.coin();
    std::shared_ptr<F> f = genQuad(g, m, x);
    double kp = g.positive(2);
    VectorXd b = g.bulkVec(m);
    int type = g.range(0, 2);
    g.log("task of type ", type, second ? " second order" : " first order");
    auto td = [&]() -> task_dynamics::abstract::TaskDynamics *
    {
      if(second) return new task_dynamics::PD(kp, 1.);
      return new task_dynamics::P(kp);
    };
    std::shared_ptr<task_dynamics::abstract::TaskDynamics> d(td());
    T t{f, nullptr, second};
    requirements::SolvingRequirements rq(requirements::PriorityLevel(0));
    if(type == 0)
      t.t = pb.add(Task(f, constraint::Type::EQUAL, *d, b), rq);
    else if(type == 1)
      t.t = pb.add(Task(f, constraint::Type::LOWER_THAN, *d, b), rq);
    else
      t.t = pb.add(Task(f, constraint::Type::DOUBLE_SIDED, *d, VectorXd(b - VectorXd::Ones(m)), b), rq);
    ts.push_back(t);
  }
  for(int r = 0; r < 2; ++r)
  {
    if(r) w.setAll(g);
    pb.update();
    auto l = gp.listOutputVal(&pb.updateGraph());
    for(auto & t : ts)
    {
      checkVec(l, t.f.get(), "Value", t.f->value());
      checkMat(l, t.f.get(), "Jacobian", t.f->variables(), [&](const Variable & x) { return MatrixXd(t.f->jacobian(x)); });
      if(t.second)
      {
        checkVec(l, t.f.get(), "Velocity", t.f->velocity());
        checkVec(l, t.f.get(), "NormalAcceleration", t.f->normalAcceleration());
      }
      auto c = pb.constraint(*t.t);
      checkMat(l, c.get(), "Jacobian", c->variables(), [&](const Variable & x) { return MatrixXd(c->jacobian(x)); });
      switch(c->type())
      {
        case constraint::Type::EQUAL:
          checkVec(l, c.get(), "E", c->e());
          break;
        case constraint::Type::LOWER_THAN:
          checkVec(l, c.get(), "U", c->u());
          break;
        case constraint::Type::DOUBLE_SIDED:
          checkVec(l, c.get(), "U", c->u());
          checkVec(l, c.get(), "L", c->l());
          break;
        default:
          pbt::fail("constraint type");
      }
    }
  }
  if(n > 1) g.nontrivial();
}

namespace
{
template<typename M>
void checkIn(const VectorXd & buffer, M && S)
{
  std::set<const double *> in;
  for(Eigen::Index i = 0; i < S.rows(); ++i)
    for(Eigen::Index j = 0; j < S.cols(); ++j) in.insert(&S.coeffRef(i, j));
  for(Eigen::Index i = 0; i < buffer.size(); ++i)
  {
    const double * p = buffer.data() + i;
    REQUIRE(diagnostic::isInMatrix(p, S) == (in.count(p) > 0), "address ", i, in.count(p) ? " is" : " is not", " in the matrix of size ", S.rows(), "x", S.cols(),
            ", strides ", S.rowStride(), ", ", S.colStride());
    REQUIRE(diagnostic::isInMatrix(buffer, i, 0, S) == (in.count(p) > 0), "element ", i);
  }
}
} // namespace

PROPERTY(logger, 2000, 20000)
{
  // Nothing is logged while the logger is disabled, and everything is otherwise.
  resetLog();
  Quiet quiet;
  auto & log = Logger::logger().log();
  std::vector<std::unique_ptr<Net>> nets;
  std::vector<std::unique_ptr<graph::CallGraph>> gs;
  std::set<const void *> known;
  bool on = true, off = false, back = false;
  for(int k = g.range(2, 5); k > 0; --k)
  {
    bool want = g.coin();
    if(want != on || g.coin(1, 4))
    {
      g.log(want ? "enable" : "disable");
      if(want)
        Logger::logger().enable();
      else
        Logger::logger().disable();
    }
    on = want;
    std::string before = log.generateDot();
    nets.push_back(std::make_unique<Net>(Net{g, {}, {}}));
    Net & net = *nets.back();
    net.generate();
    auto & last = net.ns.back();
    gs.push_back(std::make_unique<graph::CallGraph>());
    auto in = std::make_shared<graph::internal::Inputs>();
    int o = g.range(0, last.p->nOut() - 1);
    withSource(last.p, o, [&](const auto & src, auto e) { in->addInput(src, e); });
    gs.back()->add(in);
    gs.back()->update();
    gs.back()->execute();
    if(!on)
    {
      REQUIRE(log.generateDot() == before, "something was logged");
      REQUIRE(log.generateDot(gs.back().get()).empty(), "the graph was logged");
      off = true;
    }
    else
    {
      REQUIRE(!log.generateDot(gs.back().get()).empty(), "the graph was not logged");
      std::set<Out> outs, us;
      net.reach({static_cast<int>(net.ns.size()) - 1, o}, outs, us);
      auto sub = log.subGraph(gs.back().get());
      REQUIRE(sub.first.size() == outs.size() && sub.second.size() == us.size(), "part of the graph was not logged");
      back = back || off;
    }
  }
  Logger::logger().enable();
  if(off && back) g.nontrivial();
}

PROPERTY(matrix, 40000, 400000)
{
  int r = g.range(1, 7), c = g.range(1, 7), before = g.range(0, 9);
  VectorXd buffer = VectorXd::Zero(before + 500);
  double * b = buffer.data() + before;
  int i = g.range(0, r), j = g.range(0, c);
  int m = g.range(0, r - i), n = g.range(0, c - j);
  Eigen::Map<MatrixXd> M(b, r, c);
  switch(g.range(0, 7))
  {
    case 0:
      checkIn(buffer, M);
      break;
    case 1:
      g.log(i, " ", j, " ", m, " ", n);
      checkIn(buffer, M.block(i, j, m, n));
      break;
    case 2:
    {
      auto B = M.block(i, j, m, n);
      int i2 = g.range(0, m), j2 = g.range(0, n);
      checkIn(buffer, B.block(i2, j2, g.range(0, m - i2), g.range(0, n - j2)));
      break;
    }
    case 3:
    {
      int in = g.range(1, 4), out = in * r + g.range(0, 8);
      g.log("strides ", out, " ", in);
      Eigen::Map<MatrixXd, 0, Eigen::Stride<-1, -1>> S(b, r, c, Eigen::Stride<-1, -1>(out, in));
      if(g.coin())
        checkIn(buffer, S);
      else
        checkIn(buffer, S.block(i, j, m, n));
      break;
    }
    case 4:
    {
      Eigen::Map<MatrixXd, 0, Eigen::OuterStride<>> S(b, r, c, Eigen::OuterStride<>(r + g.range(0, 8)));
      checkIn(buffer, S);
      break;
    }
    case 5:
    {
      Eigen::Map<VectorXd, 0, Eigen::InnerStride<>> v(b, r, Eigen::InnerStride<>(g.range(1, 5)));
      checkIn(buffer, v);
      break;
    }
    case 6:
    {
      auto k = M.col(g.range(0, c - 1));
      if(g.coin())
        checkIn(buffer, k);
      else
        checkIn(buffer, k.segment(i, m));
      break;
    }
    default:
    {
      Eigen::Map<VectorXd> v(b, r);
      checkIn(buffer, v.segment(i, m));
    }
  }
  // range
  MatrixXd A = g.bulk(r, c, 3);
  if(g.coin(1, 5)) A(0, 0) = std::numeric_limits<double>::quiet_NaN();
  if(g.coin(1, 5)) A(r - 1, c - 1) = std::numeric_limits<double>::infinity();
  double lo = std::abs(g.real(4)), hi = g.coin(1, 5) ? std::numeric_limits<double>::infinity() : lo + g.real(1);
  if(g.coin(1, 4)) lo = hi = std::abs(A(0, 0));
  bool e = false;
  for(Eigen::Index k = 0; k < A.size(); ++k) e = e || (std::abs(A(k)) >= lo && std::abs(A(k)) <= hi);
  REQUIRE(diagnostic::hasElemAbsInRange(A, lo, hi) == e, "range ", lo, " ", hi, " in ", A);
  if(m > 0 && n > 0 && (m < r || n < c)) g.nontrivial();
}
