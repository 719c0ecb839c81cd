// Generated task dynamics, with an independent computation of their value.
#pragma once
#include "world.h"
#include <Eigen/Eigenvalues>
#include <tvm/constraint/enums.h>
#include <tvm/task_dynamics/Constant.h>
#include <tvm/task_dynamics/None.h>
#include <tvm/task_dynamics/OneStepToZero.h>
#include <tvm/task_dynamics/Proportional.h>
#include <tvm/task_dynamics/ProportionalDerivative.h>
#include <tvm/task_dynamics/Reference.h>
#include <tvm/task_dynamics/abstract/TaskDynamics.h>

namespace vars
{
namespace td = tvm::task_dynamics;

/** A scalar, diagonal or full gain*/
struct GainV
{
  int kind = 0;
  double s = 0;
  VectorXd v;
  MatrixXd M;
  MatrixXd full(int m) const
  {
    if(kind == 0) return s * MatrixXd::Identity(m, m);
    if(kind == 1) return v.asDiagonal();
    return M;
  }
};
/** @param spd symmetric positive definite when full, positive otherwise*/
inline GainV genGain(Gen & g, int m, bool spd)
{
  GainV k;
  k.kind = g.range(0, 2);
  if(k.kind == 0)
    k.s = spd ? g.positive() : g.real();
  else if(k.kind == 1)
    k.v = spd ? g.posVec(m) : g.bulkVec(m);
  else
  {
    MatrixXd A = g.bulk(m, m);
    k.M = A;
    if(spd)
    {
      k.M = A * A.transpose() + .1 * MatrixXd::Identity(m, m);
    }
  }
  return k;
}

enum class TK
{
  None,
  Constant,
  P,
  PD,
  PDcrit,
  Step1,
  Step2,
  Ref0,
  Ref1,
  Ref2
};
inline int orderOf(TK k)
{
  switch(k)
  {
    case TK::None: case TK::Constant: case TK::Ref0: return 0;
    case TK::P: case TK::Step1: case TK::Ref1: return 1;
    default: return 2;
  }
}
inline const char * tkName(TK k)
{
  static const char * n[] = {"None", "Constant", "P", "PD", "PD(kp)", "OneStepToZero1", "OneStepToZero2", "Reference0", "Reference1", "Reference2"};
  return n[static_cast<int>(k)];
}

struct TD
{
  TK kind;
  int m;
  std::shared_ptr<td::abstract::TaskDynamics> td;
  GainV kp, kv;
  double dt = 0;
  QuadFunPtr ref;

  int order() const { return orderOf(kind); }
  /** @param b constant term of the function (for linear functions).*/
  VectorXd value(const VectorXd & rhs, const VectorXd & f, const VectorXd & fd, const VectorXd & b) const
  {
    VectorXd e = f - rhs;
    switch(kind)
    {
      case TK::None: return rhs - b;
      case TK::Constant: return rhs;
      case TK::P: return -(kp.full(m) * e);
      case TK::PD: return -(kp.full(m) * e) - kv.full(m) * fd;
      case TK::PDcrit:
      {
        // kv = 2 sqrt(kp)
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(kp.full(m));
        return -(kp.full(m) * e) - 2 * (es.operatorSqrt() * fd);
      }
      case TK::Step1: return -e / dt;
      case TK::Step2: return -2 * e / (dt * dt) - 2 * fd / dt;
      default: return ref->val(ref->X());
    }
  }
};

template<typename G>
auto withGain(const GainV & k, G && fn)
{
  if(k.kind == 0) return fn(k.s);
  if(k.kind == 1) return fn(k.v);
  return fn(k.M);
}

/** @param refVars variables for the reference functions*/
inline TD genTD(Gen & g, TK k, int m, const std::vector<VariablePtr> & refVars)
{
  TD t{k, m, nullptr, {}, {}, 0, nullptr};
  using B = std::shared_ptr<td::abstract::TaskDynamics>;
  switch(k)
  {
    case TK::None: t.td = std::make_shared<td::None>(); break;
    case TK::Constant: t.td = std::make_shared<td::Constant>(); break;
    case TK::P:
      t.kp = genGain(g, m, false);
      t.td = withGain(t.kp, [](const auto & a) -> B { return std::make_shared<td::Proportional>(a); });
      break;
    case TK::PD:
      t.kp = genGain(g, m, false);
      t.kv = genGain(g, m, false);
      t.td = withGain(t.kp, [&](const auto & a) -> B { return withGain(t.kv, [&](const auto & b) -> B { return std::make_shared<td::ProportionalDerivative>(a, b); }); });
      break;
    case TK::PDcrit:
      t.kp = genGain(g, m, true);
      t.td = withGain(t.kp, [](const auto & a) -> B { return std::make_shared<td::ProportionalDerivative>(a); });
      break;
    case TK::Step1: case TK::Step2:
      t.dt = g.positive(2);
      t.td = std::make_shared<td::OneStepToZero>(k == TK::Step1 ? td::Order::One : td::Order::Two, t.dt);
      break;
    default:
      t.ref = genQuad(g, m, refVars);
      if(k == TK::Ref0)
        t.td = std::make_shared<td::Reference>(td::Order::Zero, t.ref);
      else if(k == TK::Ref1)
      {
        if(g.coin())
          t.td = std::make_shared<td::Reference>(td::Order::One, t.ref);
        else
          t.td = std::make_shared<td::ReferenceVelocity>(t.ref);
      }
      else
      {
        if(g.coin())
          t.td = std::make_shared<td::Reference>(td::Order::Two, t.ref);
        else
          t.td = std::make_shared<td::ReferenceAcceleration>(t.ref);
      }
  }
  return t;
}
} // namespace vars
