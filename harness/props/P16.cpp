#include "subproblem.h"

using namespace ls;

const pbt::Info pbt::info = {
    "P16",
    "history: up to 18 operations among additions, removals and re-additions of tasks, scalar and anisotropic weight changes, changes of the values of the variables and of the functions, additions of tasks the scheme must refuse, "
    "and resolutions by one of up to two schemes (any solver interface and options) sharing the problem; at each resolution, the problem received by the solver is compared with the one of the current tasks, up to a positive factor on the cost. "
    "substitutions: same with additions and removals of substitutions (on new or existing tasks), removals of substituted tasks and data changes; the problem received, seen through the values given to the variables, is compared with the original one. "
    "Non-trivial: at least two resolutions by a same scheme with a structural or weight change in between. Distinctness: the sequence of choices."};

PROPERTY(history, 60000, 1500000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 3, 1);
  w.setAll(g);
  std::vector<Scheme> schemes;
  bool priorities = g.coin(1, 4);
  int ns = g.coin(1, 4) ? 2 : 1;
  for(int i = 0; i < ns; ++i) schemes.push_back(genScheme(g, true, priorities));
  LinearizedControlProblem pb;
  std::vector<LTaskPtr> tasks, removed;
  GenOptions o;
  o.maxPriority = priorities ? 3 : 1;
  o.maxRows = 4;
  std::vector<bool> mayThrow(schemes.size(), false);
  std::vector<int> solved(schemes.size(), 0);
  std::vector<bool> changed(schemes.size(), false);
  LTaskPtr bad;
  auto change = [&]() { std::fill(changed.begin(), changed.end(), true); };

  auto solve = [&](size_t i) {
    Scheme & s = schemes[i];
    auto used = usedCoordinates(w, tasks);
    if(bad)
    {
      g.log("solve with ", i, ", should be refused");
      VectorXd before = w.all();
      REQUIRE_THROWS(s.s->solve(pb), std::runtime_error, "");
      REQUIRE(before == w.all(), "the variables were changed");
      mayThrow[i] = false;
      return;
    }
    if(tasks.empty())
    {
      g.log("solve with ", i, ", empty problem");
      VectorXd before = w.all();
      backend::reset();
      try
      {
        s.s->solve(pb);
      }
      catch(const std::runtime_error & e)
      {
        REQUIRE(mayThrow[i], "unexpected exception ", e.what());
      }
      REQUIRE(before == w.all(), "the variables were changed");
      mayThrow[i] = false;
      return;
    }
    Canon e = expected(w, tasks, s.scalarization, s.autoDamping, used);
    if(!supported(s, e, tasks, used)) return;
    g.log("solve with ", i);
    std::vector<int> map;
    try
    {
      map = solveAndMap(g, w, pb, *s.s, used);
    }
    catch(const std::runtime_error & ex)
    {
      REQUIRE(mayThrow[i], "unexpected exception ", ex.what());
      g.tag("refused weight change");
      mayThrow[i] = false;
      // the problem is intact
      map = solveAndMap(g, w, pb, *s.s, used);
    }
    mayThrow[i] = false;
    // the order zero variables might have changed
    compareScaled(e, received(backend::state().last), map);
    if(solved[i] && changed[i]) g.nontrivial();
    ++solved[i];
    changed[i] = false;
    w.setAll(g);
  };

  int n = g.range(2, 18);
  for(int k = 0; k < n; ++k)
  {
    switch(g.weighted({5, 4, 2, 2, 2, 1, 6, 1}))
    {
      case 0:
      {
        auto t = genTask(g, w, o);
        t->tr = pb.add(*t->task, t->requirements());
        g.log("add ", t->desc());
        tasks.push_back(t);
        change();
        break;
      }
      case 1:
      {
        if(tasks.empty()) break;
        size_t i = g.draw(tasks.size());
        bool forget = g.coin(1, 4);
        g.log("remove ", forget ? "and forget " : "", tasks[i]->desc());
        if(forget)
        {
          // the problem is the only owner
          TaskWithRequirements & tr = *tasks[i]->tr;
          tasks[i]->tr = nullptr;
          pb.remove(tr);
        }
        else
        {
          pb.remove(*tasks[i]->tr);
          removed.push_back(tasks[i]);
        }
        tasks.erase(tasks.begin() + static_cast<int>(i));
        change();
        break;
      }
      case 2:
      {
        if(removed.empty()) break;
        size_t i = g.draw(removed.size());
        g.log("re-add ", removed[i]->desc());
        g.tag("re-add");
        pb.add(removed[i]->tr);
        tasks.push_back(removed[i]);
        removed.erase(removed.begin() + static_cast<int>(i));
        change();
        break;
      }
      case 3:
      case 4:
      {
        if(tasks.empty()) break;
        auto & t = tasks[g.draw(tasks.size())];
        if(t->p == 0 && !g.coin(1, 4)) break;
        if(g.coin())
        {
          t->weight = g.positive(4);
          t->hasWeight = true;
          g.log("weight of ", t->desc());
          if(g.coin(1, 3))
            t->tr->requirements.weight() = Weight(t->weight);
          else
            t->tr->requirements.weight() = t->weight;
        }
        else
        {
          t->aniso = g.posVec(t->m, 4);
          t->hasAniso = true;
          g.log("anisotropic weight of ", t->desc());
          if(g.coin(1, 3))
            t->tr->requirements.anisotropicWeight() = AnisotropicWeight(t->aniso);
          else
            t->tr->requirements.anisotropicWeight() = t->aniso;
        }
        if(t->p == 0) std::fill(mayThrow.begin(), mayThrow.end(), true);
        g.tag("weight change");
        change();
        break;
      }
      case 5:
        g.log("new values of the functions");
        for(auto & t : tasks) t->refill(g);
        break;
      case 6:
        solve(g.draw(schemes.size()));
        break;
      case 7:
      {
        if(bad)
        {
          g.log("remove the invalid task");
          pb.remove(*bad->tr);
          bad = nullptr;
        }
        else
        {
          GenOptions o2 = o;
          o2.invalid = true;
          bad = genTask(g, w, o2);
          bad->tr = pb.add(*bad->task, bad->requirements());
          g.log("add the invalid task ", bad->desc());
          g.tag("invalid task");
        }
        break;
      }
    }
  }
  if(bad)
  {
    g.log("remove the invalid task");
    pb.remove(*bad->tr);
    bad = nullptr;
  }
  for(size_t i = 0; i < schemes.size(); ++i) solve(i);
}

PROPERTY(substitutions, 15000, 600000)
{
  World w;
  w.generate(g, 4, 3, !g.coin(1, 4), 2, 1);
  w.setAll(g);
  bool priorities = g.coin(1, 4);
  std::vector<Scheme> schemes;
  int ns = g.coin(1, 5) ? 2 : 1;
  for(int i = 0; i < ns; ++i) schemes.push_back(genScheme(g, true, priorities));
  std::vector<bool> mayThrow(schemes.size(), false), changed(schemes.size(), false);
  std::vector<int> solved(schemes.size(), 0);
  LinearizedControlProblem pb;
  SubProblem s(g, w, pb);
  std::vector<SubPtr> former; // removed substitutions
  GenOptions o;
  o.maxPriority = priorities ? 3 : 1;
  o.maxRows = 3;
  auto change = [&]() { std::fill(changed.begin(), changed.end(), true); };
  auto solve = [&](size_t i) {
    g.log("solve with ", i);
    bool b = s.solve(schemes[i], false, mayThrow[i]);
    if(!b && mayThrow[i]) b = s.solve(schemes[i], false);
    mayThrow[i] = false;
    if(b)
    {
      if(solved[i] && changed[i] && s.interesting) g.nontrivial();
      ++solved[i];
      changed[i] = false;
    }
  };
  auto erase = [](auto & v, size_t i) { v.erase(v.begin() + static_cast<int>(i)); };

  int n = g.range(3, 16);
  for(int k = 0; k < n; ++k)
  {
    switch(g.weighted({4, 2, 3, 2, 2, 1, 2, 1, 5}))
    {
      case 0:
      {
        auto t = genTask(g, w, o);
        t->tr = pb.add(*t->task, t->requirements());
        g.log("add ", t->desc());
        s.tasks.push_back(t);
        change();
        break;
      }
      case 1:
      {
        if(s.tasks.empty()) break;
        size_t i = g.draw(s.tasks.size());
        g.log("remove ", s.tasks[i]->desc());
        pb.remove(*s.tasks[i]->tr);
        erase(s.tasks, i);
        change();
        break;
      }
      case 2:
      {
        if(s.subs.size() >= 3) break;
        auto u = s.genSub();
        if(!u) break;
        s.log(*u);
        s.give(u);
        s.subs.push_back(u);
        change();
        break;
      }
      case 3:
      {
        if(s.subs.empty()) break;
        size_t i = g.draw(s.subs.size());
        auto u = s.subs[i];
        g.log("remove substitution ", i);
        g.tag("substitution removal");
        switch(g.range(0, 2))
        {
          case 0: // by the object of the user
            pb.remove(*u->s);
            break;
          case 1: // by a copy
            pb.remove(hint::Substitution(*u->s));
            break;
          case 2: // by the object in the problem
            for(auto & h : pb.substitutions().substitutions())
              if(h.constraints() == u->s->constraints())
              {
                pb.remove(h);
                break;
              }
            break;
        }
        erase(s.subs, i);
        for(auto & t : u->tasks) s.tasks.push_back(t);
        former.push_back(u);
        change();
        break;
      }
      case 4:
      {
        // substitution based on tasks already in the problem
        if(former.empty()) break;
        size_t i = g.draw(former.size());
        auto u = former[i];
        bool in = true;
        for(auto & t : u->tasks) in = in && std::find(s.tasks.begin(), s.tasks.end(), t) != s.tasks.end();
        for(int c : u->cols) in = in && !s.substituted(c);
        if(!in) break;
        g.tag("substitution of present tasks");
        g.logs("again: ");
        s.log(*u);
        for(auto & t : u->tasks) s.tasks.erase(std::find(s.tasks.begin(), s.tasks.end(), t));
        s.give(u);
        s.subs.push_back(u);
        erase(former, i);
        change();
        break;
      }
      case 5:
      {
        // remove a task used by a substitution
        if(s.subs.empty()) break;
        size_t i = g.draw(s.subs.size());
        auto u = s.subs[i];
        auto t = u->tasks[g.draw(u->tasks.size())];
        g.log("remove the task of a substitution ", t->desc());
        g.tag("removal of a substituted task");
        if(u->tasks.size() == 1 && u->x.size() == 1)
        {
          pb.remove(*t->tr);
          erase(s.subs, i);
          change();
        }
        else
          REQUIRE_THROWS(pb.remove(*t->tr), std::runtime_error, "the task is part of a non-simple substitution");
        break;
      }
      case 6:
      {
        if(s.tasks.empty()) break;
        auto & t = s.tasks[g.draw(s.tasks.size())];
        if(t->p == 0 && !g.coin(1, 4)) break;
        t->weight = g.positive(4);
        t->hasWeight = true;
        g.log("weight of ", t->desc());
        if(g.coin(1, 3))
          t->tr->requirements.weight() = Weight(t->weight);
        else
          t->tr->requirements.weight() = t->weight;
        if(t->p == 0) std::fill(mayThrow.begin(), mayThrow.end(), true);
        change();
        break;
      }
      case 7:
        g.log("new values of the functions");
        for(auto & t : s.allTasks()) t->refill(g);
        break;
      case 8:
        solve(g.draw(schemes.size()));
        break;
    }
  }
  for(size_t i = 0; i < schemes.size(); ++i) solve(i);
}
