#pragma once
#include "../backend.h"
#include <iostream>
namespace Eigen
{
namespace lssol
{
enum class eType { LP, LS1, LS2, QP1, QP2 };
}
class LSSOL_Base
{
public:
  /** Recognizable default values*/
  static double defaultOption(const std::string & n)
  {
    static const std::map<std::string, double> d = {{"crashTol", .01}, {"feasibilityMaxIter", 50}, {"feasibilityTol", 1.1e-8}, {"infiniteBnd", 1e20}, {"infiniteStep", 2e20}, {"optimalityMaxIter", 60},
                                                    {"persistence", 0}, {"printLevel", 0}, {"rankTol", 1e-7}, {"warm", 0}};
    return d.at(n);
  }
#define OPT(T, name)                     \
  void name(T v) { name##_ = v; }        \
  T name() const { return name##_; }     \
  T name##_ = static_cast<T>(defaultOption(#name));
  OPT(double, crashTol)
  OPT(int, feasibilityMaxIter)
  OPT(double, feasibilityTol)
  OPT(double, infiniteBnd)
  OPT(double, infiniteStep)
  OPT(int, optimalityMaxIter)
  OPT(bool, persistence)
  OPT(int, printLevel)
  OPT(double, rankTol)
  OPT(bool, warm)
#undef OPT
  void record(backend::Problem & p) const
  {
#define REC(name) p.opt[#name] = static_cast<double>(name##_);
    REC(crashTol) REC(feasibilityMaxIter) REC(feasibilityTol) REC(infiniteBnd) REC(infiniteStep) REC(optimalityMaxIter) REC(persistence) REC(printLevel) REC(rankTol) REC(warm)
#undef REC
  }
  void forceMinSize(bool) {}
  const VectorXd & result() const { return x_; }
  int inform() const { return 0; }
  void print_inform() const {}

protected:
  VectorXd x_;
  int n_ = -1, m_ = -1;
};
class LSSOL_LS : public LSSOL_Base
{
public:
  void resize(int n, int nCstr, lssol::eType)
  {
    n_ = n;
    m_ = nCstr;
  }
  bool solve(Eigen::Ref<MatrixXd> A, const VectorXd & b, const MatrixXd & C, const VectorXd & l, const VectorXd & u)
  {
    backend::Allow allow;
    using backend::misuse;
    misuse(A.cols() != n_ || C.cols() != n_ || C.rows() != m_, "LSSOL_LS::solve: size is not the size given to resize");
    misuse(A.rows() != b.size() || l.size() != n_ + C.rows() || u.size() != l.size(), "LSSOL_LS::solve: inconsistent sizes");
    if(!backend::state().misuse.empty()) return false;
    backend::Problem p;
    p.solver = "LSSOL";
    record(p);
    p.n = n_;
    p.hasObjective = true;
    p.A = A;
    p.b = b;
    p.H = A.transpose() * A;
    p.g = -A.transpose() * b;
    p.xl = l.head(n_);
    p.xu = u.head(n_);
    backend::splitRows(C, l.tail(m_), u.tail(m_), p);
    x_ = backend::solve(std::move(p));
    // The real solver overwrites A
    A.setConstant(1e3);
    return backend::state().success;
  }
};
} // namespace Eigen
