#pragma once
#include "LSSOL_LS.h"
namespace Eigen
{
class LSSOL_FP : public LSSOL_Base
{
public:
  void resize(int n, int nCstr)
  {
    n_ = n;
    m_ = nCstr;
  }
  bool solve(const MatrixXd & C, const VectorXd & l, const VectorXd & u)
  {
    backend::Allow allow;
    using backend::misuse;
    misuse(C.cols() != n_ || C.rows() != m_, "LSSOL_FP::solve: size is not the size given to resize");
    misuse(l.size() != n_ + C.rows() || u.size() != l.size(), "LSSOL_FP::solve: inconsistent sizes");
    if(!backend::state().misuse.empty()) return false;
    backend::Problem p;
    p.solver = "LSSOL";
    record(p);
    p.n = n_;
    p.hasObjective = false;
    p.A.resize(0, n_);
    p.b.resize(0);
    p.H = MatrixXd::Zero(n_, n_);
    p.g = VectorXd::Zero(n_);
    p.xl = l.head(n_);
    p.xu = u.head(n_);
    backend::splitRows(C, l.tail(m_), u.tail(m_), p);
    x_ = backend::solve(std::move(p));
    return backend::state().success;
  }
};
} // namespace Eigen
