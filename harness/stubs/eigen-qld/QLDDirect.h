#pragma once
#include "../backend.h"
namespace Eigen
{
class QLDDirect
{
public:
  void problem(int n, int nEq, int nIneq, int = -1, int = -1)
  {
    n_ = n;
    nEq_ = nEq;
    nIneq_ = nIneq;
  }
  /** min 1/2 x^T Q x + c^T x  s.t. A x + b = 0 (nEq first rows), A x + b >= 0 (others), xl <= x <= xu.
   * If isDecomp, Q is the R factor of the Cholesky decomposition. */
  template<typename M>
  bool solve(const MatrixBase<M> & Q, const VectorXd & c, const MatrixXd & A, const VectorXd & b, const VectorXd & xl, const VectorXd & xu, int nEq, bool isDecomp, double eps = 1e-15)
  {
    backend::Allow allow;
    using backend::misuse;
    misuse(Q.rows() != n_ || Q.cols() != n_, "QLDDirect::solve: Q does not have the size given to problem");
    misuse(c.size() != n_ || xl.size() != n_ || xu.size() != n_, "QLDDirect::solve: c, xl or xu has a wrong size");
    misuse(A.cols() != n_ || A.rows() != nEq_ + nIneq_ || b.size() != A.rows() || nEq != nEq_, "QLDDirect::solve: constraints do not have the size given to problem");
    if(!backend::state().misuse.empty()) return false;
    backend::Problem p;
    p.solver = isDecomp ? "QLD(cholesky)" : "QLD";
    p.n = n_;
    p.opt["eps"] = eps;
    p.opt["cholesky"] = isDecomp;
    p.hasObjective = true;
    if(isDecomp)
    {
      MatrixXd R = MatrixXd(Q).template triangularView<Upper>();
      p.H = R.transpose() * R;
    }
    else
      p.H = Q;
    p.g = c;
    p.E = A.topRows(nEq);
    p.e = -b.head(nEq);
    p.I = -A.bottomRows(nIneq_);
    p.i = b.tail(nIneq_);
    p.xl = xl;
    p.xu = xu;
    x_ = backend::solve(std::move(p));
    return backend::state().success;
  }
  const VectorXd & result() const { return x_; }
  int fail() const { return 0; }

private:
  VectorXd x_;
  int n_ = -1, nEq_ = -1, nIneq_ = -1;
};
} // namespace Eigen
