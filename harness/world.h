// A world of variables with a flat vector of all their coordinates, and functions over them with exact derivatives.
#pragma once
#include <tvm/utils/memoryChecks.h>
#include "vars.h"
#include <map>
#include <tvm/function/abstract/Function.h>

namespace vars
{
using Eigen::MatrixXd;
using Eigen::VectorXd;

/** Roots variables and their derivatives up to maxD, laid out in a single vector of size N.*/
struct World
{
  Pool pool;
  int maxD = 0;
  int N = 0;
  std::map<std::pair<int, int>, int> off;

  void generate(Gen & g, int maxRoots, int maxElems, bool euclidean, int maxElemSize, int maxD_)
  {
    maxD = maxD_;
    genRoots(g, pool, g.range(1, maxRoots), maxElems, euclidean, maxElemSize);
    layout();
  }
  void layout()
  {
    N = 0;
    for(size_t r = 0; r < pool.roots.size(); ++r)
      for(int d = 0; d <= maxD; ++d)
      {
        off[{static_cast<int>(r), d}] = N;
        N += var(static_cast<int>(r), d)->size();
      }
  }
  VariablePtr var(int r, int d) const { return d ? dot(pool.roots[static_cast<size_t>(r)].v, d) : pool.roots[static_cast<size_t>(r)].v; }
  int start(const Piece & q, int d) const
  {
    const Root & R = pool.roots[static_cast<size_t>(q.root)];
    return off.at({q.root, d}) + (d ? R.cum(q.e0).t : R.cum(q.e0).r);
  }
  int start(const Piece & q) const { return start(q, q.d); }
  /** Offset of any variable.*/
  int start(const Variable & v) const
  {
    for(size_t r = 0; r < pool.roots.size(); ++r)
      for(int d = 0; d <= maxD; ++d)
        if(v.superVariable() == var(static_cast<int>(r), d)) return off.at({static_cast<int>(r), d}) + v.subvariableRange().start;
    pbt::fail("unexpected variable " + v.name());
  }
  void setAll(Gen & g, double m = 2)
  {
    for(size_t r = 0; r < pool.roots.size(); ++r)
      for(int d = 0; d <= maxD; ++d)
      {
        VariablePtr v = var(static_cast<int>(r), d);
        v->set(g.bulkVec(v->size(), m));
      }
  }
  VectorXd all() const
  {
    VectorXd a(N);
    for(size_t r = 0; r < pool.roots.size(); ++r)
      for(int d = 0; d <= maxD; ++d)
      {
        VariablePtr v = var(static_cast<int>(r), d);
        a.segment(off.at({static_cast<int>(r), d}), v->size()) = v->value();
      }
    return a;
  }
  void setAll(const VectorXd & a)
  {
    for(size_t r = 0; r < pool.roots.size(); ++r)
      for(int d = 0; d <= maxD; ++d)
      {
        VariablePtr v = var(static_cast<int>(r), d);
        v->set(a.segment(off.at({static_cast<int>(r), d}), v->size()));
      }
  }
  /** A piece with Euclidean values (going to a derivative if necessary and possible).*/
  Piece eucl(Gen & g, int maxd)
  {
    Piece q = genPiece(g, pool, maxd);
    if(!q.p->isEuclidean() && maxd) q = pool.make(q.root, q.e0, q.ne, 1);
    return q;
  }
  /** Disjoint pieces*/
  std::vector<Piece> disjoint(Gen & g, int n, int maxd)
  {
    std::vector<Piece> res;
    for(int i = 0; i < n; ++i)
    {
      Piece q = eucl(g, maxd);
      bool ok = true;
      for(auto & r : res) ok = ok && !q.intersects(r);
      if(ok) res.push_back(q);
    }
    return res;
  }
  /** Dense version of the jacobian of something with variables() and jacobian(x)*/
  template<typename F>
  MatrixXd dense(const F & f) const
  {
    MatrixXd J = MatrixXd::Zero(f.size(), N);
    for(const auto & x : f.variables()) J.middleCols(start(*x), x->size()) += f.jacobian(*x);
    return J;
  }
};

/** The functions of the harness can allocate, whatever was asked to tvm.*/
struct AllowMalloc
{
  AllowMalloc() { tvm::utils::override_is_malloc_allowed(true); }
  ~AllowMalloc() { tvm::utils::restore_is_malloc_allowed(); }
};
/** Forbids Eigen to allocate memory.*/
struct NoMalloc
{
  NoMalloc() { tvm::utils::override_is_malloc_allowed(false); }
  ~NoMalloc() { tvm::utils::restore_is_malloc_allowed(); }
};

/** f_i(X) = b_i + A_i X + 1/2 X^T Q_i X, with X the concatenation of variables. Counts its updates.*/
class QuadFun : public function::abstract::Function
{
public:
  SET_UPDATES(QuadFun, Value, Jacobian, Velocity, NormalAcceleration, JDot)

  MatrixXd A;
  std::vector<MatrixXd> Q;
  VectorXd b;
  int nValue = 0, nJacobian = 0, nVelocity = 0, nNormalAcceleration = 0, nJDot = 0;

  QuadFun(const std::vector<VariablePtr> & x, const MatrixXd & A_, const std::vector<MatrixXd> & Q_, const VectorXd & b_)
  : Function(static_cast<int>(A_.rows())), A(A_), Q(Q_), b(b_)
  {
    registerUpdates(Update::Value, &QuadFun::updateValue, Update::Jacobian, &QuadFun::updateJacobian, Update::Velocity, &QuadFun::updateVelocity,
                    Update::NormalAcceleration, &QuadFun::updateNormalAcceleration, Update::JDot, &QuadFun::updateJDot);
    addOutputDependency<QuadFun>(Output::Value, Update::Value);
    addOutputDependency<QuadFun>(Output::Jacobian, Update::Jacobian);
    addOutputDependency<QuadFun>(Output::Velocity, Update::Velocity);
    addOutputDependency<QuadFun>(Output::NormalAcceleration, Update::NormalAcceleration);
    addOutputDependency<QuadFun>(Output::JDot, Update::JDot);
    addInternalDependency<QuadFun>(Update::Velocity, Update::Jacobian);
    addInternalDependency<QuadFun>(Update::NormalAcceleration, Update::JDot);
    bool linear = true;
    for(auto & q : Q) linear = linear && q.isZero(0);
    for(auto & v : x) addVariable(v, linear);
    value_.setConstant(NAN);
    velocity_.setConstant(NAN);
    normalAcceleration_.setConstant(NAN);
    for(auto & v : x)
    {
      jacobian_[v.get()].setConstant(NAN);
      JDot_[v.get()].setConstant(NAN);
    }
  }
  VectorXd X() const { return variables().value(); }
  VectorXd V() const
  {
    VectorXd v(variables().totalSize());
    int s = 0;
    for(auto & x : variables())
    {
      v.segment(s, x->size()) = dot(x)->value();
      s += x->size();
    }
    return v;
  }
  // reference computations
  VectorXd val(const VectorXd & x) const
  {
    VectorXd v = b + A * x;
    for(Eigen::Index i = 0; i < v.size(); ++i) v[i] += .5 * x.dot(Q[static_cast<size_t>(i)] * x);
    return v;
  }
  MatrixXd jac(const VectorXd & x) const
  {
    MatrixXd J = A;
    for(Eigen::Index i = 0; i < J.rows(); ++i) J.row(i) += (Q[static_cast<size_t>(i)] * x).transpose();
    return J;
  }
  MatrixXd jdot(const VectorXd & v) const
  {
    MatrixXd J(A.rows(), A.cols());
    for(Eigen::Index i = 0; i < J.rows(); ++i) J.row(i) = (Q[static_cast<size_t>(i)] * v).transpose();
    return J;
  }
  VectorXd vel(const VectorXd & x, const VectorXd & v) const { return jac(x) * v; }
  VectorXd nacc(const VectorXd & v) const { return jdot(v) * v; }

  void updateValue()
  {
    AllowMalloc allow;
    ++nValue;
    value_ = val(X());
  }
  void updateJacobian()
  {
    AllowMalloc allow;
    ++nJacobian;
    splitJacobian(jac(X()), variables());
  }
  void updateVelocity()
  {
    AllowMalloc allow;
    ++nVelocity;
    MatrixXd J(A.rows(), A.cols());
    int s = 0;
    for(auto & x : variables())
    {
      J.middleCols(s, x->size()) = jacobian_.at(x.get());
      s += x->size();
    }
    velocity_ = J * V();
  }
  void updateJDot()
  {
    AllowMalloc allow;
    ++nJDot;
    MatrixXd J = jdot(V());
    int s = 0;
    for(auto & x : variables())
    {
      JDot_[x.get()] = J.middleCols(s, x->size());
      s += x->size();
    }
  }
  void updateNormalAcceleration()
  {
    AllowMalloc allow;
    ++nNormalAcceleration;
    VectorXd v = V();
    normalAcceleration_.setZero();
    int s = 0;
    for(auto & x : variables())
    {
      normalAcceleration_ += JDot_[x.get()] * v.segment(s, x->size());
      s += x->size();
    }
  }
};
using QuadFunPtr = std::shared_ptr<QuadFun>;

/** Random function of the given size on the given variables.*/
inline QuadFunPtr genQuad(Gen & g, int m, const std::vector<VariablePtr> & x, bool linear = false)
{
  int n = 0;
  for(auto & v : x) n += v->size();
  MatrixXd A = g.bulk(m, n);
  VectorXd b = g.bulkVec(m);
  std::vector<MatrixXd> Q;
  for(int i = 0; i < m; ++i)
  {
    if(linear)
      Q.push_back(MatrixXd::Zero(n, n));
    else
    {
      MatrixXd S = g.bulk(n, n, 1);
      Q.push_back(S + S.transpose());
    }
  }
  return std::make_shared<QuadFun>(x, A, Q, b);
}
} // namespace vars
