#pragma once
#include "../backend.h"
#include <Eigen/LU>
namespace Eigen
{
class QuadProgDense
{
public:
  void problem(int n, int nEq, int nIneq)
  {
    n_ = n;
    nEq_ = nEq;
    nIneq_ = nIneq;
  }
  /** min 1/2 x^T Q x + c^T x  s.t. Aeq x = beq, Aineq x <= bineq. If isDecomp, Q is R^{-1} with R^T R the hessian.*/
  bool solve(const Ref<const MatrixXd> & Q, const VectorXd & c, const Ref<const MatrixXd> & Aeq, const Ref<const VectorXd> & beq, const Ref<const MatrixXd> & Aineq, const Ref<const VectorXd> & bineq, bool isDecomp)
  {
    backend::Allow allow;
    using backend::misuse;
    misuse(Q.rows() != n_ || Q.cols() != n_, "QuadProgDense::solve: Q does not have the size given to problem");
    misuse(c.size() != n_, "QuadProgDense::solve: c has a wrong size");
    misuse(Aeq.cols() != n_ || Aeq.rows() != nEq_ || beq.size() != nEq_, "QuadProgDense::solve: wrong size of the equality constraints");
    misuse(Aineq.cols() != n_ || Aineq.rows() != nIneq_ || bineq.size() != nIneq_, "QuadProgDense::solve: wrong size of the inequality constraints");
    if(!backend::state().misuse.empty()) return false;
    backend::Problem p;
    p.solver = isDecomp ? "Quadprog(cholesky)" : "Quadprog";
    p.n = n_;
    p.opt["cholesky"] = isDecomp;
    p.hasObjective = true;
    if(isDecomp)
    {
      MatrixXd Ri = MatrixXd(Q).triangularView<Upper>();
      MatrixXd R = n_ ? MatrixXd(Ri.inverse()) : Ri;
      p.H = R.transpose() * R;
    }
    else
      p.H = Q;
    p.g = c;
    p.E = Aeq;
    p.e = beq;
    p.I = Aineq;
    p.i = bineq;
    p.xl = VectorXd::Constant(n_, -1e300);
    p.xu = VectorXd::Constant(n_, +1e300);
    x_ = backend::solve(std::move(p));
    return backend::state().success;
  }
  const VectorXd & result() const { return x_; }
  int fail() const { return 0; }

private:
  VectorXd x_;
  int n_ = -1, nEq_ = -1, nIneq_ = -1;
};
} // namespace Eigen
