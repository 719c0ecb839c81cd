// Stand-ins for the third-party solvers (not available offline) that the adapters of TVM talk to.
// They record the problem they receive, in a canonical form, and return whatever the harness wants.
#pragma once
#include <Eigen/Core>
#include <array>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <tvm/utils/memoryChecks.h>

namespace backend
{
/** The stand-ins can allocate, whatever was asked to tvm.*/
struct Allow
{
  Allow() { tvm::utils::override_is_malloc_allowed(true); }
  ~Allow() { tvm::utils::restore_is_malloc_allowed(); }
};
struct Level
{
  Eigen::MatrixXd A;
  Eigen::VectorXd l, u;
};

/** min 1/2 x^T H x + g^T x   s.t. E x = e, I x <= i, xl <= x <= xu.
 * For the lexicographic back-end, levels holds the levels and H, g, E, e, I, i are empty, unless asWLS was called.
 */
struct Problem
{
  std::string solver;
  int n = 0;
  bool hasObjective = false;
  Eigen::MatrixXd H;
  Eigen::VectorXd g;
  Eigen::MatrixXd E;
  Eigen::VectorXd e;
  Eigen::MatrixXd I;
  Eigen::VectorXd i;
  Eigen::VectorXd xl, xu;
  std::vector<Level> levels;
  /** least-square form of the objective, when known*/
  Eigen::MatrixXd A;
  Eigen::VectorXd b;
  /** Options of the back-end*/
  std::map<std::string, double> opt;
  std::string file;
  /** Guess (for the lexicographic back-end): initial point (empty if not given) and (level, row, type) of the active constraints */
  Eigen::VectorXd x0;
  std::vector<std::array<int, 3>> active;
  /** Active set (same format, including equalities) the back-end will give.*/
  std::vector<std::array<int, 3>> finalActive;
};

/** Called by a back-end when it has to solve. Returns x. */
using Solve = std::function<Eigen::VectorXd(const Problem &)>;

struct State
{
  Problem last;
  int nbSolve = 0;
  bool success = true;
  Solve solve;
  /** Error detected in the way the back-end is used (inconsistent sizes, ...).*/
  std::string misuse;
};
State & state();
void reset();

inline void misuse(bool cond, const char * what)
{
  if(cond && state().misuse.empty()) state().misuse = what;
}

inline Eigen::VectorXd solve(Problem && p)
{
  State & s = state();
  ++s.nbSolve;
  s.last = std::move(p);
  Eigen::VectorXd x = s.solve ? s.solve(s.last) : Eigen::VectorXd::Zero(s.last.n);
  return x;
}

/** Split l <= C x <= u into equalities (l==u) and one-sided inequalities. */
inline void splitRows(const Eigen::MatrixXd & C, const Eigen::VectorXd & l, const Eigen::VectorXd & u, Problem & p)
{
  std::vector<int> eq, in;
  for(int k = 0; k < C.rows(); ++k) (l[k] == u[k] ? eq : in).push_back(k);
  p.E.resize(static_cast<long>(eq.size()), C.cols());
  p.e.resize(static_cast<long>(eq.size()));
  for(size_t k = 0; k < eq.size(); ++k)
  {
    p.E.row(static_cast<long>(k)) = C.row(eq[k]);
    p.e[static_cast<long>(k)] = l[eq[k]];
  }
  p.I.resize(2 * static_cast<long>(in.size()), C.cols());
  p.i.resize(2 * static_cast<long>(in.size()));
  for(size_t k = 0; k < in.size(); ++k)
  {
    long r = 2 * static_cast<long>(k);
    p.I.row(r) = C.row(in[k]);
    p.i[r] = u[in[k]];
    p.I.row(r + 1) = -C.row(in[k]);
    p.i[r + 1] = -l[in[k]];
  }
}
} // namespace backend
