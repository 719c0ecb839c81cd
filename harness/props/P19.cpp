#include "pbt.h"
#include <map>
#include <memory>
#include <set>
#include <tvm/event/Listener.h>
#include <tvm/event/Source.h>
#include <tvm/internal/CallbackManager.h>
#include <tvm/internal/PairElementToken.h>

using tvm::internal::CallbackManager;
using tvm::internal::PairElementTokenHandle;
using Tok = tvm::internal::PairElementToken;

const pbt::Info pbt::info = {
    "P19",
    "tokens: up to 40 operations (creation, pairing, refused pairing, handles, move construction, move assignment including onto itself and its counterpart, growth and erasure in a vector, "
    "destruction of either side) compared after each operation with a model of the pairs. callbacks: up to 30 operations on up to 3 managers (registrations, handles that are dropped, releases by "
    "destruction, by overwriting and by unregistration, refused unregistrations, moves of tokens, destruction of managers, runs), the callbacks themselves doing such operations during a run. "
    "events: the same with event sources and listeners, several types of events, listeners dying before and during a notification. Non-trivial: a moved or destroyed paired token (tokens); a "
    "notification with at least a live registrant, after a release (callbacks, events). Distinctness: the sequence of choices."};

PROPERTY(tokens, 25000, 400000)
{
  std::map<int, std::unique_ptr<Tok>> heap;
  std::vector<Tok> vec;
  std::vector<int> vecIds;
  std::map<int, int> pair; // model: token -> its counterpart, or -1
  int next = 0;
  bool nontrivial = false;

  auto ptr = [&](int id) -> Tok * {
    auto it = heap.find(id);
    if(it != heap.end()) return it->second.get();
    for(size_t i = 0; i < vecIds.size(); ++i)
      if(vecIds[i] == id) return &vec[i];
    pbt::fail("harness: unknown token");
    return nullptr;
  };
  auto ids = [&] {
    std::vector<int> r;
    for(auto & p : pair) r.push_back(p.first);
    return r;
  };
  auto unpair = [&](int id) {
    if(pair[id] >= 0)
    {
      pair[pair[id]] = -1;
      pair[id] = -1;
    }
  };
  auto transfer = [&](int to, int from) { // to is unpaired
    pair[to] = pair[from];
    if(pair[from] >= 0)
    {
      pair[pair[from]] = to;
      pair[from] = -1;
      nontrivial = true;
    }
  };
  auto create = [&] {
    int id = next++;
    if(g.coin(1, 3))
    {
      vec.emplace_back();
      vecIds.push_back(id);
    }
    else
      heap[id] = std::make_unique<Tok>();
    pair[id] = -1;
    return id;
  };
  auto check = [&] {
    auto l = ids();
    for(int a : l)
    {
      const Tok & t = *ptr(a);
      REQUIRE(t.isPaired() == (pair[a] >= 0), "token ", a, " isPaired is ", t.isPaired());
      for(int b : l) REQUIRE(t.isPairedWith(*ptr(b)) == (pair[a] == b), "token ", a, " isPairedWith ", b, " is wrong");
      if(pair[a] >= 0)
        REQUIRE(&t.otherPairElement() == ptr(pair[a]), "token ", a, ": wrong counterpart");
      else
        REQUIRE_THROWS(t.otherPairElement(), std::exception, "counterpart of the unpaired token ", a);
    }
  };

  for(int i = 0; i < 2; ++i) create();
  int n = g.range(1, 40);
  for(int k = 0; k < n; ++k)
  {
    auto l = ids();
    int op = l.empty() ? 0 : g.weighted({4, 6, 3, 3, 5, 3, 3, 3});
    if(op == 0)
      g.log("create ", create());
    else if(op == 1)
    {
      int a = g.pick(l), b = g.pick(l);
      if(a == b) continue;
      g.log("pair ", a, " with ", b);
      if(pair[a] < 0 && pair[b] < 0)
      {
        ptr(a)->pairWith(*ptr(b));
        pair[a] = b;
        pair[b] = a;
      }
      else
      {
        g.tag("refused pairing");
        REQUIRE_THROWS(ptr(a)->pairWith(*ptr(b)), std::exception, "pairing with a paired token");
      }
    }
    else if(op == 2)
    {
      int a = g.pick(l);
      if(pair[a] >= 0) continue;
      PairElementTokenHandle h(*ptr(a));
      REQUIRE(h.isValid(), "a new handle is not valid");
      if(g.coin(1, 5))
      {
        g.log("handle on ", a, " dropped");
        continue;
      }
      int b;
      if(g.coin() || l.size() < 2)
      {
        b = next++;
        heap[b] = std::make_unique<Tok>(std::move(h));
        pair[b] = -1;
        g.log("token ", b, " from a handle on ", a);
      }
      else
      {
        b = g.pick(l);
        if(b == a) continue;
        g.log("token ", b, " assigned from a handle on ", a);
        if(pair[b] >= 0) nontrivial = true;
        unpair(b);
        *ptr(b) = std::move(h);
      }
      REQUIRE(!h.isValid(), "a used handle is still valid");
      pair[a] = b;
      pair[b] = a;
    }
    else if(op == 3)
    {
      int a = g.pick(l), b = next++;
      g.log("move ", a, " to the new ", b);
      if(g.coin())
      {
        // through a temporary, as vec might be reallocated
        Tok t(std::move(*ptr(a)));
        vec.push_back(std::move(t));
        vecIds.push_back(b);
      }
      else
        heap[b] = std::make_unique<Tok>(std::move(*ptr(a)));
      pair[b] = -1;
      transfer(b, a);
    }
    else if(op == 4)
    {
      int a = g.pick(l), b = g.pick(l);
      g.log("assign ", a, " from ", b);
      bool p = pair[a] >= 0;
      if(p) g.tag("assigning to a paired token");
      Tok & ta = *ptr(a);
      ta = std::move(*ptr(b));
      if(a == b)
      {
        g.tag("self move");
        // valid but unspecified
        if(p && !ta.isPaired()) unpair(a);
      }
      else if(pair[a] == b)
      {
        g.tag("move onto its counterpart");
        unpair(a);
      }
      else
      {
        unpair(a);
        transfer(a, b);
      }
    }
    else if(op == 5)
    {
      int a = g.pick(l);
      g.log("destroy ", a);
      if(pair[a] >= 0) nontrivial = true;
      unpair(a);
      pair.erase(a);
      if(heap.erase(a) == 0)
        for(size_t i = 0; i < vecIds.size(); ++i)
          if(vecIds[i] == a)
          {
            vec.erase(vec.begin() + static_cast<long>(i));
            vecIds.erase(vecIds.begin() + static_cast<long>(i));
            break;
          }
    }
    else if(op == 6)
    {
      g.log("reallocation of the vector");
      vec.reserve(vec.capacity() + 1 + static_cast<size_t>(g.range(0, 3)));
      for(int i : vecIds)
        if(pair[i] >= 0) nontrivial = true;
    }
    else
    {
      g.log("move of the whole vector");
      std::vector<Tok> v2;
      for(auto & t : vec) v2.push_back(std::move(t));
      vec = std::move(v2);
    }
    check();
  }
  if(nontrivial) g.nontrivial();
}

namespace
{
struct Cb
{
  int id;
  int mgr;
  bool released = false;
  std::unique_ptr<Tok> tok; // null if in store or dropped
  int store = -1;
  long calls = 0;
};
struct Frame
{
  int mgr;
  std::set<int> pending; // must be called, unless released meanwhile
  std::set<int> called;
};

struct CbWorld
{
  pbt::Gen & g;
  std::vector<std::unique_ptr<CallbackManager>> mgrs;
  std::vector<Tok> store;
  std::vector<std::unique_ptr<Cb>> cbs;
  std::vector<Frame> frames;
  bool released = false, nontrivial = false;

  explicit CbWorld(pbt::Gen & g) : g(g) {}

  Tok & tok(Cb & c) { return c.tok ? *c.tok : store[static_cast<size_t>(c.store)]; }
  void release(Cb & c)
  {
    c.released = true;
    released = true;
    for(auto & f : frames) f.pending.erase(c.id);
  }
  std::vector<int> held()
  {
    std::vector<int> r;
    for(auto & c : cbs)
      if(c->tok || c->store >= 0) r.push_back(c->id);
    return r;
  }
  std::vector<int> live()
  {
    std::vector<int> r;
    for(size_t i = 0; i < mgrs.size(); ++i)
      if(mgrs[i]) r.push_back(static_cast<int>(i));
    return r;
  }
  void call(int id)
  {
    Cb & c = *cbs[static_cast<size_t>(id)];
    g.log(std::string(2 * frames.size(), ' '), "callback ", id);
    REQUIRE(!c.released, "callback ", id, " is called after its release");
    REQUIRE(!frames.empty() && frames.back().mgr == c.mgr, "callback ", id, " is called by the wrong manager");
    REQUIRE(frames.back().called.insert(id).second, "callback ", id, " is called twice in a notification");
    frames.back().pending.erase(id);
    ++c.calls;
    if(released) nontrivial = true;
    if(g.coin(1, 4))
    {
      g.tag("operation during a notification");
      step();
    }
  }

  void run(int m)
  {
    g.log(std::string(2 * frames.size(), ' '), "run ", m);
    Frame f;
    f.mgr = m;
    for(auto & c : cbs)
      if(c->mgr == m && !c->released) f.pending.insert(c->id);
    frames.push_back(f);
    mgrs[static_cast<size_t>(m)]->run();
    REQUIRE(frames.back().pending.empty(), "callback ", *frames.back().pending.begin(), " is registered but was not called by manager ", m);
    frames.pop_back();
  }
  bool running(int m) const
  {
    for(auto & f : frames)
      if(f.mgr == m) return true;
    return false;
  }

  void step()
  {
    auto L = live();
    auto H = held();
    std::string ind(2 * frames.size(), ' ');
    if(L.empty())
    {
      mgrs.push_back(std::make_unique<CallbackManager>());
      return;
    }
    int m = g.pick(L);
    CallbackManager & M = *mgrs[static_cast<size_t>(m)];
    int op = g.weighted({6, 1, 4, 3, 3, 2, 2, 1, 6});
    if(frames.size() > 2 && op == 8) return;
    if(op == 8)
      run(m);
    else if(op == 0 || op == 1)
    {
      if(cbs.size() > 30) return;
      auto c = std::make_unique<Cb>();
      int id = static_cast<int>(cbs.size());
      c->id = id;
      c->mgr = m;
      // captures enough not to be stored in place
      auto fn = [this, id, canary = std::make_shared<int>(id), pad = std::array<int, 8>{}] {
        auto k = canary;
        this->call(id);
        REQUIRE(*canary == id && pad[3] == 0 && k == canary, "corrupted callback");
      };
      if(op == 1)
      {
        g.log(ind, "register ", id, " with ", m, ", handle dropped");
        c->released = true;
        M.registerCallback(fn);
        g.tag("dropped handle");
      }
      else if(g.coin(1, 3))
      {
        g.log(ind, "register ", id, " with ", m, ", token in a vector");
        c->store = static_cast<int>(store.size());
        store.emplace_back(M.registerCallback(fn));
      }
      else
      {
        g.log(ind, "register ", id, " with ", m);
        c->tok = std::make_unique<Tok>(M.registerCallback(fn));
      }
      cbs.push_back(std::move(c));
    }
    else if(H.empty())
      return;
    else if(op == 2)
    {
      Cb & c = *cbs[static_cast<size_t>(g.pick(H))];
      if(!c.tok) return;
      g.log(ind, "destroy the token of ", c.id);
      c.tok.reset();
      release(c);
    }
    else if(op == 3)
    {
      Cb & c = *cbs[static_cast<size_t>(g.pick(H))];
      bool good = c.mgr == m && !c.released;
      g.log(ind, "unregister ", c.id, " from ", m, good ? "" : " (refused)");
      if(good)
      {
        M.unregisterCallback(tok(c));
        release(c);
      }
      else
      {
        g.tag("refused unregistration");
        REQUIRE_THROWS(M.unregisterCallback(tok(c)), std::exception, "unregistering an unknown callback");
      }
    }
    else if(op == 4)
    {
      Cb & c = *cbs[static_cast<size_t>(g.pick(H))];
      g.log(ind, "move the token of ", c.id);
      auto t = std::make_unique<Tok>(std::move(tok(c)));
      c.tok = std::move(t);
      c.store = -1;
    }
    else if(op == 5)
    {
      Cb & c = *cbs[static_cast<size_t>(g.pick(H))];
      Cb & d = *cbs[static_cast<size_t>(g.pick(H))];
      if(&c == &d) return;
      g.log(ind, "overwrite the token of ", c.id, " with the one of ", d.id);
      tok(c) = std::move(tok(d));
      release(c);
      // the place of the token of c now is the one of the token of d
      std::swap(c.tok, d.tok);
      std::swap(c.store, d.store);
      c.tok.reset();
      c.store = -1;
    }
    else if(op == 6)
    {
      g.log(ind, "reserve");
      store.reserve(store.capacity() + 1);
    }
    else
    {
      if(running(m)) return;
      g.log(ind, "destroy manager ", m);
      mgrs[static_cast<size_t>(m)].reset();
      for(auto & c : cbs)
        if(c->mgr == m) release(*c);
    }
  }
  void check()
  {
    for(auto & c : cbs)
      if(c->tok || c->store >= 0)
        REQUIRE(tok(*c).isPaired() == !c->released, "the token of ", c->id, c->released ? " does not know that its callback is gone" : " does not know that its callback is registered");
  }
};
} // namespace

PROPERTY(callbacks, 25000, 400000)
{
  CbWorld w(g);
  int nm = g.range(1, 3);
  for(int i = 0; i < nm; ++i) w.mgrs.push_back(std::make_unique<CallbackManager>());
  int n = g.range(1, 30);
  for(int k = 0; k < n; ++k)
  {
    w.step();
    w.check();
  }
  for(int m : w.live())
    if(w.mgrs[static_cast<size_t>(m)]) w.run(m);
  w.check();
  if(g.coin())
    w.mgrs.clear();
  else
  {
    for(auto & c : w.cbs)
    {
      c->tok.reset();
      c->released = true;
    }
    w.store.clear();
    for(auto & c : w.cbs) c->store = -1;
    for(int m : w.live()) w.mgrs[static_cast<size_t>(m)]->run();
  }
  if(w.nontrivial) g.nontrivial();
}

namespace
{
using tvm::event::Source;
using tvm::event::Type;
struct EvWorld;
struct L : public tvm::event::Listener
{
  L(EvWorld & w, int id) : w(w), id(id) {}
  void process(Type evt, const Source & s) override;
  EvWorld & w;
  int id;
  int receiving = 0;
};

struct EvFrame
{
  int src, type;
  std::map<int, int> calls, start;
};

struct EvWorld
{
  pbt::Gen & g;
  std::vector<std::unique_ptr<Source>> src;
  std::vector<std::shared_ptr<L>> lis; // reset when dead
  std::map<std::tuple<int, int, int>, int> reg; // (source, type, listener) -> number of registrations
  std::vector<EvFrame> frames;
  bool dead = false, nontrivial = false;
  explicit EvWorld(pbt::Gen & g) : g(g) {}

  void notify(int s, int t)
  {
    g.log(std::string(2 * frames.size(), ' '), "notify ", s, " type ", t);
    EvFrame f;
    f.src = s;
    f.type = t;
    for(auto & r : reg)
      if(std::get<0>(r.first) == s && std::get<1>(r.first) == t && lis[static_cast<size_t>(std::get<2>(r.first))]) f.start[std::get<2>(r.first)] = r.second;
    frames.push_back(f);
    src[static_cast<size_t>(s)]->notify(static_cast<Type>(t));
    const EvFrame & e = frames.back();
    for(size_t i = 0; i < lis.size(); ++i)
    {
      int id = static_cast<int>(i);
      auto get = [&](const std::map<int, int> & m) { return m.count(id) ? m.at(id) : 0; };
      auto it = reg.find({s, t, id});
      int maxi = it == reg.end() ? 0 : it->second;
      int mini = lis[i] ? get(e.start) : 0;
      REQUIRE(mini <= get(e.calls) && get(e.calls) <= maxi, "listener ", i, " was called ", get(e.calls), " times instead of ", mini, " to ", maxi);
    }
    frames.pop_back();
  }
  void step()
  {
    std::string ind(2 * frames.size(), ' ');
    int s = g.range(0, static_cast<int>(src.size()) - 1);
    int t = g.weighted({4, 2, 1});
    int op = g.weighted({5, 2, 3, 5});
    if(op == 0)
    {
      if(lis.size() > 12) return;
      int id = static_cast<int>(lis.size());
      lis.push_back(std::make_shared<L>(*this, id));
      g.log(ind, "new listener ", id, " for source ", s, " type ", t);
      src[static_cast<size_t>(s)]->regist(lis.back(), static_cast<Type>(t));
      reg[{s, t, id}] = 1;
    }
    else if(op == 3)
    {
      if(frames.size() < 3) notify(s, t);
    }
    else
    {
      std::vector<int> alive;
      for(size_t i = 0; i < lis.size(); ++i)
        if(lis[i]) alive.push_back(static_cast<int>(i));
      if(alive.empty()) return;
      int id = g.pick(alive);
      if(op == 1)
      {
        g.log(ind, "listener ", id, " for source ", s, " type ", t);
        src[static_cast<size_t>(s)]->regist(lis[static_cast<size_t>(id)], static_cast<Type>(t));
        ++reg[{s, t, id}];
      }
      else
      {
        g.log(ind, "death of listener ", id);
        lis[static_cast<size_t>(id)].reset();
        dead = true;
      }
    }
  }
};

void L::process(Type evt, const Source & s)
{
  REQUIRE(!w.frames.empty(), "unexpected notification");
  auto & f = w.frames.back();
  REQUIRE(&s == w.src[static_cast<size_t>(f.src)].get(), "wrong notifier");
  REQUIRE(static_cast<int>(evt) == f.type, "wrong event");
  // A listener without owner can only be called while it is kept alive by an outer notification it is receiving
  REQUIRE(w.lis[static_cast<size_t>(id)] || receiving > 0, "notification of a dead listener");
  struct Receiving
  {
    int & r;
    explicit Receiving(int & r) : r(r) { ++r; }
    ~Receiving() { --r; }
  } guard(receiving);
  ++f.calls[id];
  if(w.dead) w.nontrivial = true;
  if(w.g.coin(1, 5))
  {
    w.g.tag("operation during a notification");
    w.step();
  }
}
} // namespace

PROPERTY(events, 20000, 300000)
{
  EvWorld w(g);
  int ns = g.range(1, 2);
  for(int i = 0; i < ns; ++i) w.src.push_back(std::make_unique<Source>());
  int n = g.range(1, 25);
  for(int k = 0; k < n; ++k) w.step();
  for(int i = 0; i < ns; ++i) w.notify(i, 0);
  if(w.nontrivial) g.nontrivial();
}
