#include "vars.h"
#include <tvm/Clock.h>
#include <tvm/geometry/Plane.h>
#include <tvm/graph/CallGraph.h>
#include <tvm/graph/abstract/Node.h>

using namespace tvm::geometry;
using tvm::graph::internal::Inputs;

const pbt::Info pbt::info = {
    "P25",
    "history: up to 20 operations (position by normal and offset or by normal and point, velocity, acceleration, change of what the integrator gives, execution of one of the call graphs) on one plane "
    "driven (or not) by an integrator, all accessors being compared with a model after each one. Non-trivial: a history with both ways of positioning, and one execution of a graph requesting some but "
    "not all outputs of an integrated plane. clock: up to 15 ticks of two clocks and executions of a graph with a node depending on the time of the first one. Non-trivial: an execution after two ticks. Distinctness: the sequence of choices."};

namespace
{
using V3 = Eigen::Vector3d;
struct Data
{
  V3 n = V3::Zero(), p = V3::Zero(), nd = V3::Zero(), s = V3::Zero(), ndd = V3::Zero(), a = V3::Zero();
  double o = 0;
};

/** Gives its data to the plane. Its outputs are not in the order of those of the plane.*/
class Integrator : public tvm::graph::abstract::Node<Integrator>
{
public:
  SET_OUTPUTS(Integrator, Acc, Unused, Pos, Vel)
  SET_UPDATES(Integrator, UPos, UVel, UAcc, UUnused)
  Integrator()
  {
    registerUpdates(Update::UPos, &Integrator::pos, Update::UVel, &Integrator::vel, Update::UAcc, &Integrator::acc, Update::UUnused, &Integrator::unused);
    addOutputDependency(Output::Pos, Update::UPos);
    addOutputDependency(Output::Vel, Update::UVel);
    addOutputDependency(Output::Acc, Update::UAcc);
    addOutputDependency(Output::Unused, Update::UUnused);
  }
  void pos()
  {
    ++calls[0];
    plane->position(next.n, next.p);
  }
  void vel()
  {
    ++calls[1];
    plane->velocity(next.nd, next.s);
  }
  void acc()
  {
    ++calls[2];
    plane->acceleration(next.ndd, next.a);
  }
  void unused() { ++calls[3]; }
  Plane * plane = nullptr;
  Data next;
  int calls[4] = {0, 0, 0, 0};
};

V3 v3(pbt::Gen & g) { return g.vec(3); }
} // namespace

namespace
{
/** A node counting what a clock tells it.*/
class Ticker : public tvm::graph::abstract::Node<Ticker>
{
public:
  SET_OUTPUTS(Ticker, Out)
  SET_UPDATES(Ticker, U)
  Ticker(std::shared_ptr<tvm::Clock> c) : clock(c)
  {
    registerUpdates(Update::U, &Ticker::up);
    addOutputDependency(Output::Out, Update::U);
    addInputDependency<Ticker>(Update::U, c, tvm::Clock::Output::Time);
  }
  void up()
  {
    ++calls;
    time = clock->dt() * static_cast<double>(clock->ticks());
  }
  std::shared_ptr<tvm::Clock> clock;
  int calls = 0;
  double time = 0;
};
} // namespace

PROPERTY(clock, 3000, 40000)
{
  const double dt = std::pow(10., g.range(-6, 2)) * g.positive(2);
  auto c = std::make_shared<tvm::Clock>(dt);
  auto other = std::make_shared<tvm::Clock>(2 * dt);
  auto t = std::make_shared<Ticker>(c);
  tvm::graph::CallGraph gr;
  auto in = std::make_shared<Inputs>();
  const bool direct = g.coin(1, 3);
  in->addInput(t, Ticker::Output::Out);
  if(direct) in->addInput(c, tvm::Clock::Output::Time);
  gr.add(in);
  gr.update();
  uint64_t n = 0, no = 0;
  int calls = 0;
  bool ran = false;
  int k = static_cast<int>(g.range(1, 15));
  for(int i = 0; i < k; ++i)
  {
    switch(g.weighted({3, 2, 1, 1}))
    {
      case 0:
        c->advance();
        ++n;
        break;
      case 1:
        gr.execute();
        ++calls;
        REQUIRE(t->calls == calls, "number of calls of a node depending on the time");
        REQUIRE(t->time == dt * static_cast<double>(n), "time ", t->time, " after ", n, " ticks of ", dt);
        ran = ran || n > 1;
        break;
      case 2:
        other->advance();
        ++no;
        break;
      case 3:
        gr.update();
        break;
    }
    REQUIRE(c->ticks() == n && other->ticks() == no, "ticks");
    REQUIRE(c->dt() == dt && other->dt() == 2 * dt, "time step ", c->dt(), " instead of ", dt);
  }
  if(ran) g.nontrivial();
}

PROPERTY(history, 4000, 60000)
{
  Data m;
  m.n = v3(g);
  PlanePtr plane;
  bool both[2] = {false, false}, partial = false;
  if(g.coin(1, 2))
  {
    m.o = g.real(5);
    plane = std::make_shared<Plane>(m.n, m.o);
    both[0] = true;
  }
  else
  {
    m.p = v3(g);
    m.o = -m.n.dot(m.p);
    plane = std::make_shared<Plane>(m.n, m.p);
    both[1] = true;
  }
  std::shared_ptr<Integrator> it;
  int mode = static_cast<int>(g.range(0, 2));
  if(mode)
  {
    it = std::make_shared<Integrator>();
    it->plane = plane.get();
    it->next.n = v3(g);
    if(mode == 1)
      plane->setIntegrator(it, Integrator::Output::Pos, Integrator::Output::Vel, Integrator::Output::Acc);
    else
      plane->setIntegrator(*it, Integrator::Output::Pos, Integrator::Output::Vel, Integrator::Output::Acc);
  }
  struct G
  {
    tvm::graph::CallGraph graph;
    std::shared_ptr<Inputs> in = std::make_shared<Inputs>();
    bool req[3] = {false, false, false};
  };
  std::vector<std::unique_ptr<G>> graphs;
  for(int i = 0; i < 2; ++i)
  {
    auto gr = std::make_unique<G>();
    std::decay_t<decltype(Plane::Output::Position)> outs[3] = {Plane::Output::Position, Plane::Output::Velocity, Plane::Output::Acceleration};
    for(int k = 0; k < 3; ++k)
      if(g.coin(1, 2))
      {
        gr->req[k] = true;
        gr->in->addInput(plane, outs[k]);
      }
    if(gr->req[0] || gr->req[1] || gr->req[2]) gr->graph.add(gr->in);
    gr->graph.update();
    graphs.push_back(std::move(gr));
  }
  auto check = [&](const char * when) {
    REQUIRE(plane->normal() == m.n, "normal after ", when);
    REQUIRE(std::abs(plane->offset() - m.o) <= 1e-12 * (1 + m.n.norm() * m.p.norm()), "offset ", plane->offset(), " instead of ", m.o, " after ", when);
    REQUIRE(plane->point() == m.p, "point after ", when);
    REQUIRE(plane->normalDot() == m.nd, "normalDot after ", when);
    REQUIRE(plane->speed() == m.s, "speed after ", when);
    REQUIRE(plane->normalDotDot() == m.ndd, "normalDotDot after ", when);
    REQUIRE(plane->acceleration() == m.a, "acceleration after ", when);
  };
  check("construction");
  int n = static_cast<int>(g.range(1, 20));
  for(int i = 0; i < n; ++i)
  {
    switch(g.range(0, 5))
    {
      case 0:
        m.n = v3(g);
        m.o = g.real(5);
        plane->position(m.n, m.o);
        both[0] = true;
        check("position(normal, offset)");
        break;
      case 1:
        m.n = v3(g);
        m.p = v3(g);
        m.o = -m.n.dot(m.p);
        plane->position(m.n, m.p);
        both[1] = true;
        check("position(normal, point)");
        break;
      case 2:
        m.nd = v3(g);
        m.s = v3(g);
        plane->velocity(m.nd, m.s);
        check("velocity");
        break;
      case 3:
        m.ndd = v3(g);
        m.a = v3(g);
        plane->acceleration(m.ndd, m.a);
        check("acceleration");
        break;
      case 4:
        if(it)
        {
          Data & d = it->next;
          for(V3 * v : {&d.n, &d.p, &d.nd, &d.s, &d.ndd, &d.a}) *v = v3(g);
        }
        break;
      default:
      {
        G & gr = *graphs[static_cast<size_t>(g.range(0, 1))];
        if(it) std::fill(it->calls, it->calls + 4, 0);
        gr.graph.execute();
        if(it)
        {
          for(int k = 0; k < 3; ++k) REQUIRE(it->calls[k] == (gr.req[k] ? 1 : 0), "update ", k, " of the integrator was called ", it->calls[k], " times");
          REQUIRE(it->calls[3] == 0, "update of an output of the integrator which is not used was called");
          const Data & d = it->next;
          if(gr.req[0])
          {
            m.n = d.n;
            m.p = d.p;
            m.o = -d.n.dot(d.p);
          }
          if(gr.req[1])
          {
            m.nd = d.nd;
            m.s = d.s;
          }
          if(gr.req[2])
          {
            m.ndd = d.ndd;
            m.a = d.a;
          }
          int c = gr.req[0] + gr.req[1] + gr.req[2];
          if(c > 0 && c < 3) partial = true;
        }
        check("execution");
      }
    }
  }
  g.tag(mode == 0 ? "static" : "integrated");
  if(both[0] && both[1] && partial) g.nontrivial();
}
