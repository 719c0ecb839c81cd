#include "pbt.h"
#include <array>
#include <memory>
#include <tvm/requirements/SolvingRequirements.h>

using namespace tvm::requirements;
using Eigen::VectorXd;

const pbt::Info pbt::info = {
    "P21",
    "construction: every subset of the 4 requirements in every order (65), each given by value or by an object with callbacks (when allowed), with an explicit or default value, for both kinds of "
    "containers, the copy to the container with callbacks and the refused values. changes: up to 25 changes (by value, by assignment of a value, of a requirement of the other kind, with default or "
    "explicit content, refused negative values) on two containers with callbacks and one without, registrations and releases of listeners in between, the values, flags and notifications of all "
    "requirements being compared with the model after each change, and from within the notifications. Non-trivial: at least 2 requirements given (construction), an accepted change with a "
    "listener (changes). Distinctness: the sequence of choices."};

namespace
{
struct Model
{
  int p = 0;
  double w = 1;
  VectorXd a;
  ViolationEvaluationType v = ViolationEvaluationType::L2;
  std::array<bool, 4> def{{true, true, true, true}};
};

ViolationEvaluationType genEval(pbt::Gen & g)
{
  return g.pick(std::vector<ViolationEvaluationType>{ViolationEvaluationType::L2, ViolationEvaluationType::L1, ViolationEvaluationType::LINF});
}
double genWeight(pbt::Gen & g) { return g.coin(1, 6) ? 0. : g.coin(1, 6) ? 1. : g.positive(4); }
VectorXd genAniso(pbt::Gen & g)
{
  VectorXd a = g.posVec(g.range(0, 4), 3);
  if(a.size() > 0 && g.coin(1, 6)) a[g.range(0, static_cast<int>(a.size()) - 1)] = 0;
  if(g.coin(1, 6)) a.setOnes();
  return a;
}
int genPriority(pbt::Gen & g) { return g.range(0, 3); }
/** A vector with at least one negative element*/
VectorXd genBadAniso(pbt::Gen & g)
{
  VectorXd a = g.posVec(g.range(1, 4), 3);
  a[g.range(0, static_cast<int>(a.size()) - 1)] = -g.positive(2);
  return a;
}

template<typename R>
void compare(const R & r, const Model & m, const char * what)
{
  REQUIRE(r.priorityLevel().value() == m.p, what, ": priority ", r.priorityLevel().value(), " instead of ", m.p);
  REQUIRE(r.weight().value() == m.w, what, ": weight ", r.weight().value(), " instead of ", m.w);
  REQUIRE(r.anisotropicWeight().value().size() == m.a.size() && r.anisotropicWeight().value() == m.a, what, ": wrong anisotropic weight");
  REQUIRE(r.violationEvaluation().value() == m.v, what, ": wrong evaluation");
  REQUIRE(r.priorityLevel().isDefault() == m.def[0], what, ": wrong default flag of the priority");
  REQUIRE(r.weight().isDefault() == m.def[1], what, ": wrong default flag of the weight");
  REQUIRE(r.anisotropicWeight().isDefault() == m.def[2], what, ": wrong default flag of the anisotropic weight");
  REQUIRE(r.violationEvaluation().isDefault() == m.def[3], what, ": wrong default flag of the evaluation");
}

/** Build the requirement of kind K, with or without explicit value, and pass it to f*/
template<int K, bool L, typename F>
void make(pbt::Gen & g, Model & m, F && f)
{
  bool expl = !g.coin(1, 6);
  m.def[K] = !expl;
  if constexpr(K == 0)
  {
    g.logs(L ? " " : " non-lightweight ", "priority");
    if(expl)
      f(PriorityLevelBase<L>(m.p = genPriority(g)));
    else
      f(PriorityLevelBase<L>());
  }
  else if constexpr(K == 1)
  {
    g.logs(L ? " " : " non-lightweight ", "weight");
    if(expl)
      f(WeightBase<L>(m.w = genWeight(g)));
    else
      f(WeightBase<L>());
  }
  else if constexpr(K == 2)
  {
    g.logs(L ? " " : " non-lightweight ", "anisotropic");
    if(expl)
      f(AnisotropicWeightBase<L>(m.a = genAniso(g)));
    else
      f(AnisotropicWeightBase<L>());
  }
  else
  {
    g.logs(L ? " " : " non-lightweight ", "evaluation");
    if(expl)
      f(ViolationEvaluationBase<L>(m.v = genEval(g)));
    else
      f(ViolationEvaluationBase<L>());
  }
}

/** Used is the mask of the kinds already given. L: are the containers lightweight. Mixed: whether some args are not.*/
template<typename R, unsigned Used, bool AllowHeavy, typename... Args>
void build(pbt::Gen & g, Model & m, int remaining, const std::function<void(const R &)> & check, const Args &... args)
{
  if constexpr(sizeof...(Args) < 4)
  {
    if(remaining > 0)
    {
      std::vector<int> kinds;
      for(int k = 0; k < 4; ++k)
        if(!(Used & (1u << k))) kinds.push_back(k);
      int k = g.pick(kinds);
      auto go = [&](auto K) {
        constexpr int KK = decltype(K)::value;
        if constexpr(!(Used & (1u << KK)))
        {
          if constexpr(AllowHeavy && sizeof...(Args) < 2)
          {
            if(g.coin(1, 3))
            {
              make<KK, false>(g, m, [&](const auto & r) { build<R, Used | (1u << KK), AllowHeavy>(g, m, remaining - 1, check, args..., r); });
              return;
            }
          }
          make<KK, true>(g, m, [&](const auto & r) { build<R, Used | (1u << KK), AllowHeavy>(g, m, remaining - 1, check, args..., r); });
        }
      };
      switch(k)
      {
        case 0: go(std::integral_constant<int, 0>()); break;
        case 1: go(std::integral_constant<int, 1>()); break;
        case 2: go(std::integral_constant<int, 2>()); break;
        default: go(std::integral_constant<int, 3>()); break;
      }
      return;
    }
  }
  g.log("");
  R r(args...);
  check(r);
}
} // namespace

PROPERTY(construction, 20000, 300000)
{
  Model m;
  int n = g.range(0, 4);
  if(n >= 2) g.nontrivial();
  if(g.coin())
  {
    build<SolvingRequirements, 0, true>(g, m, n, [&](const SolvingRequirements & r) {
      compare(r, m, "requirements");
      SolvingRequirements c(r);
      compare(c, m, "copied requirements");
      SolvingRequirementsWithCallbacks h(r);
      compare(h, m, "requirements with callbacks");
      compare(r, m, "requirements, after their copy");
      // copies are independent
      c.weight() = m.w + 1;
      h.weight() = m.w + 2;
      compare(r, m, "requirements, after a change of a copy");
      SolvingRequirements d;
      d = r;
      compare(d, m, "assigned requirements");
    });
  }
  else
  {
    g.tag("with callbacks");
    build<SolvingRequirementsWithCallbacks, 0, false>(g, m, n, [&](const SolvingRequirementsWithCallbacks & r) { compare(r, m, "requirements with callbacks"); });
  }
  double bw = -g.positive(3);
  int bp = -g.range(1, 3);
  VectorXd ba = genBadAniso(g);
  REQUIRE_THROWS((void)Weight{bw}, std::exception, "negative weight");
  REQUIRE_THROWS((void)WeightBase<false>{bw}, std::exception, "negative weight");
  REQUIRE_THROWS((void)PriorityLevel{bp}, std::exception, "negative priority");
  REQUIRE_THROWS((void)PriorityLevelBase<false>{bp}, std::exception, "negative priority");
  REQUIRE_THROWS((void)AnisotropicWeight{ba}, std::exception, "negative anisotropic weight");
  REQUIRE_THROWS((void)AnisotropicWeightBase<false>{ba}, std::exception, "negative anisotropic weight");
}

namespace
{
struct Listener
{
  int owner, kind;
  long calls = 0;
  tvm::internal::PairElementToken tok;
};
} // namespace

PROPERTY(changes, 20000, 300000)
{
  // 0 and 1 have callbacks, 2 does not
  SolvingRequirementsWithCallbacks h0, h1;
  SolvingRequirements l2;
  std::array<Model, 3> model;
  if(g.coin())
  {
    Model & m = model[0];
    m.w = genWeight(g);
    m.def[1] = false;
    h0.weight() = m.w;
  }
  std::vector<std::unique_ptr<Listener>> ls;
  bool nontrivial = false;
  auto checkAll = [&](const char * when) {
    compare(h0, model[0], when);
    compare(h1, model[1], when);
    compare(l2, model[2], when);
  };
  auto withReq = [&](int o, auto && f) {
    if(o == 0)
      f(h0);
    else if(o == 1)
      f(h1);
    else
      f(l2);
  };
  int n = g.range(1, 25);
  for(int step = 0; step < n; ++step)
  {
    int op = g.weighted({3, 8, 1});
    if(op == 0)
    {
      if(ls.size() > 8) continue;
      ls.push_back(std::make_unique<Listener>());
      Listener * l = ls.back().get();
      l->owner = g.range(0, 1);
      l->kind = g.range(0, 3);
      g.log("listen to requirement ", l->kind, " of ", l->owner);
      auto & h = l->owner ? h1 : h0;
      auto cb = [l, &checkAll] {
        ++l->calls;
        checkAll("within a notification"); // the change is visible
      };
      switch(l->kind)
      {
        case 0: l->tok = h.priorityLevel().registerCallback(cb); break;
        case 1: l->tok = h.weight().registerCallback(cb); break;
        case 2: l->tok = h.anisotropicWeight().registerCallback(cb); break;
        default: l->tok = h.violationEvaluation().registerCallback(cb); break;
      }
    }
    else if(op == 2)
    {
      if(ls.empty()) continue;
      auto i = g.draw(ls.size());
      g.log("release of listener ", i);
      ls.erase(ls.begin() + static_cast<long>(i));
    }
    else
    {
      int o = g.range(0, 2), k = g.range(0, 3), how = g.range(0, 3);
      Model old = model[static_cast<size_t>(o)];
      Model & m = model[static_cast<size_t>(o)];
      bool bad = how < 2 && k < 3 && g.coin(1, 6);
      bool dflt = how == 3;
      g.log("change of requirement ", k, " of ", o, " (", how == 0 ? "value()" : how == 1 ? "= value" : how == 2 ? "= requirement" : "= default requirement", bad ? ", negative)" : ")");
      std::vector<long> before;
      for(auto & l : ls) before.push_back(l->calls);
      auto apply = [&](auto & r, const auto & v) {
        using Req = std::decay_t<decltype(r)>;
        (void)sizeof(Req);
        if(how == 0)
          r.value(v);
        else
          r = v;
      };
      withReq(o, [&](auto & R) {
        constexpr bool heavy = std::is_same_v<std::decay_t<decltype(R)>, SolvingRequirementsWithCallbacks>;
        // the other kind
        if(k == 0)
        {
          if(bad)
          {
            REQUIRE_THROWS(apply(R.priorityLevel(), -g.range(1, 3)), std::exception, "negative priority");
            return;
          }
          m.p = dflt ? 0 : genPriority(g);
          m.def[0] = dflt;
          if(how < 2)
            apply(R.priorityLevel(), m.p);
          else if(dflt)
            R.priorityLevel() = PriorityLevelBase<heavy>();
          else
            R.priorityLevel() = PriorityLevelBase<heavy>(m.p);
        }
        else if(k == 1)
        {
          if(bad)
          {
            REQUIRE_THROWS(apply(R.weight(), -g.positive(3)), std::exception, "negative weight");
            return;
          }
          m.w = dflt ? 1 : genWeight(g);
          m.def[1] = dflt;
          if(how < 2)
            apply(R.weight(), m.w);
          else if(dflt)
            R.weight() = WeightBase<heavy>();
          else
            R.weight() = WeightBase<heavy>(m.w);
        }
        else if(k == 2)
        {
          if(bad)
          {
            REQUIRE_THROWS(apply(R.anisotropicWeight(), genBadAniso(g)), std::exception, "negative anisotropic weight");
            return;
          }
          m.a = dflt ? VectorXd() : genAniso(g);
          m.def[2] = dflt;
          if(how < 2)
            apply(R.anisotropicWeight(), m.a);
          else if(dflt)
            R.anisotropicWeight() = AnisotropicWeightBase<heavy>();
          else
            R.anisotropicWeight() = AnisotropicWeightBase<heavy>(m.a);
        }
        else
        {
          m.v = dflt ? ViolationEvaluationType::L2 : genEval(g);
          m.def[3] = dflt;
          if(how < 2)
            apply(R.violationEvaluation(), m.v);
          else if(dflt)
            R.violationEvaluation() = ViolationEvaluationBase<heavy>();
          else
            R.violationEvaluation() = ViolationEvaluationBase<heavy>(m.v);
        }
      });
      if(bad) g.tag("refused value");
      for(size_t i = 0; i < ls.size(); ++i)
      {
        bool concerned = !bad && ls[i]->owner == o && ls[i]->kind == k;
        if(concerned)
        {
          nontrivial = true;
          g.tag("notification");
        }
        REQUIRE(ls[i]->calls - before[i] == (concerned ? 1 : 0), "listener ", i, " (requirement ", ls[i]->kind, " of ", ls[i]->owner, ") got ", ls[i]->calls - before[i],
                " notifications");
      }
    }
    checkAll("after a step");
  }
  if(nontrivial) g.nontrivial();
}
