#pragma once
#include "../backend.h"
#include <string>
#include <vector>
namespace LexLS
{
using Index = unsigned int;
using RealScalar = double;
enum RegularizationType { REGULARIZATION_NONE = 0, REGULARIZATION_TIKHONOV };
enum ObjectiveType { GENERAL_OBJECTIVE, SIMPLE_BOUNDS_OBJECTIVE };
enum ConstraintActivationType { CTR_INACTIVE, CTR_ACTIVE_LB, CTR_ACTIVE_UB, CTR_ACTIVE_EQ };
enum class TerminationStatus { PROBLEM_SOLVED, PROBLEM_SOLVED_CYCLING_HANDLING, MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED };
struct ConstraintIdentifier
{
  Index obj_index, ctr_index;
  ConstraintActivationType ctr_type;
};
struct ParametersLexLSI
{
  Index max_number_of_factorizations = 200;
  RealScalar tol_linear_dependence = 1e-12, tol_wrong_sign_lambda = 1e-8, tol_correct_sign_lambda = 2e-12, tol_feasibility = 1e-13;
  RegularizationType regularization_type = REGULARIZATION_NONE;
  Index max_number_of_CG_iterations = 10;
  RealScalar variable_regularization_factor = 0;
  bool cycling_handling_enabled = false;
  Index cycling_max_counter = 51;
  RealScalar cycling_relax_step = 3e-8;
  std::string output_file_name;
  bool modify_x_guess_enabled = false, modify_type_active_enabled = false, modify_type_inactive_enabled = false, set_min_init_ctr_violation = true;
  bool use_phase1_v0 = false, log_working_set_enabled = false, deactivate_first_wrong_sign = false;
  void record(backend::Problem & p) const
  {
    p.file = output_file_name;
#define REC(name) p.opt[#name] = static_cast<double>(name);
    REC(max_number_of_factorizations) REC(tol_linear_dependence) REC(tol_wrong_sign_lambda) REC(tol_correct_sign_lambda) REC(tol_feasibility) REC(regularization_type)
    REC(max_number_of_CG_iterations) REC(variable_regularization_factor) REC(cycling_handling_enabled) REC(cycling_max_counter) REC(cycling_relax_step) REC(modify_x_guess_enabled)
    REC(modify_type_active_enabled) REC(modify_type_inactive_enabled) REC(set_min_init_ctr_violation) REC(use_phase1_v0) REC(log_working_set_enabled) REC(deactivate_first_wrong_sign)
#undef REC
  }
};
namespace internal
{
class LexLSI
{
public:
  void setParameters(const ParametersLexLSI & p) { param_ = p; }
  void resize(Index n, Index nObj, Index * dims, ObjectiveType * types)
  {
    n_ = static_cast<int>(n);
    dims_.assign(dims, dims + nObj);
    types_.assign(types, types + nObj);
    data_.assign(nObj, Eigen::MatrixXd());
    x_ = Eigen::VectorXd::Zero(n_);
  }
  void reset()
  {
    backend::Allow allow;
    x0_.resize(0);
    active_.clear();
  }
  void setData(Index i, const Eigen::MatrixXd & d)
  {
    backend::Allow allow;
    using backend::misuse;
    misuse(i >= dims_.size(), "LexLSI::setData: non-existing objective");
    if(!backend::state().misuse.empty()) return;
    misuse(types_[i] != GENERAL_OBJECTIVE, "LexLSI::setData: not a general objective");
    misuse(d.rows() != dims_[i] || d.cols() != n_ + 2, "LexLSI::setData: size is not the size given to resize");
    data_[i] = d;
  }
  void setData(Index i, Index * var, const Eigen::MatrixXd & d)
  {
    backend::Allow allow;
    using backend::misuse;
    misuse(i >= dims_.size(), "LexLSI::setData: non-existing objective");
    if(!backend::state().misuse.empty()) return;
    misuse(types_[i] != SIMPLE_BOUNDS_OBJECTIVE, "LexLSI::setData: not a bound objective");
    misuse(d.rows() != dims_[i] || d.cols() != 2, "LexLSI::setData: size is not the size given to resize");
    if(!backend::state().misuse.empty()) return;
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(d.rows(), n_ + 2);
    for(int k = 0; k < d.rows(); ++k)
    {
      misuse(static_cast<int>(var[k]) >= n_, "LexLSI::setData: wrong variable index");
      if(!backend::state().misuse.empty()) return;
      m(k, var[k]) = 1;
      m.row(k).tail(2) = d.row(k);
    }
    data_[i] = m;
  }
  void activate(Index obj, Index ctr, ConstraintActivationType type, bool = true)
  {
    backend::Allow allow;
    using backend::misuse;
    misuse(obj >= dims_.size(), "LexLSI::activate: non-existing objective");
    if(!backend::state().misuse.empty()) return;
    misuse(ctr >= dims_[obj], "LexLSI::activate: non-existing constraint");
    misuse(type == CTR_INACTIVE, "LexLSI::activate: inactive constraint");
    active_.push_back({static_cast<int>(obj), static_cast<int>(ctr), static_cast<int>(type)});
  }
  void set_x0(const Eigen::VectorXd & x) 
  {
    backend::Allow allow;
    backend::misuse(x.size() != n_, "LexLSI::set_x0: wrong size");
    x0_ = x;
  }
  TerminationStatus solve()
  {
    backend::Allow allow;
    backend::Problem p;
    p.solver = "LexLS";
    p.n = n_;
    if(!backend::state().misuse.empty()) return TerminationStatus::MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED;
    for(const auto & d : data_)
    {
      backend::misuse(d.cols() != n_ + 2, "LexLSI::solve: data not set");
      if(!backend::state().misuse.empty()) return TerminationStatus::MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED;
      p.levels.push_back({d.leftCols(n_), d.col(n_), d.col(n_ + 1)});
    }
    param_.record(p);
    p.x0 = x0_;
    p.active = active_;
    for(Index i = 0; i < dims_.size(); ++i)
      for(Index k = 0; k < dims_[i]; ++k)
        if(auto t = status(i, k)) p.finalActive.push_back({static_cast<int>(i), static_cast<int>(k), static_cast<int>(t)});
    x_ = backend::solve(std::move(p));
    return backend::state().success ? TerminationStatus::PROBLEM_SOLVED : TerminationStatus::MAX_NUMBER_OF_FACTORIZATIONS_EXCEEDED;
  }
  /** An arbitrary active set, for the constraints that can be active*/
  ConstraintActivationType status(Index obj, Index ctr) const
  {
    const auto & d = data_[obj];
    double l = d(ctr, n_), u = d(ctr, n_ + 1);
    if(l == u) return CTR_ACTIVE_EQ;
    if((obj + ctr) % 3 == 0 && l > -1e8) return CTR_ACTIVE_LB;
    if((obj + ctr) % 2 == 0 && u < 1e8) return CTR_ACTIVE_UB;
    return CTR_INACTIVE;
  }
  void getActiveCtr(Index obj, std::vector<ConstraintActivationType> & a) const
  {
    a.clear();
    backend::misuse(obj >= dims_.size(), "LexLSI::getActiveCtr: non-existing objective");
    if(!backend::state().misuse.empty()) return;
    for(Index k = 0; k < dims_[obj]; ++k) a.push_back(status(obj, k));
  }
  void getActiveCtr_order(std::vector<ConstraintIdentifier> & a) const
  {
    a.clear();
    if(!backend::state().misuse.empty()) return;
    for(Index i = 0; i < dims_.size(); ++i)
      for(Index k = 0; k < dims_[i]; ++k)
        if(auto s = status(i, k)) a.push_back({i, k, s});
  }
  const Eigen::VectorXd & get_x() const { return x_; }
  void print(const char *) const {}

private:
  int n_ = -1;
  std::vector<Index> dims_;
  std::vector<ObjectiveType> types_;
  std::vector<Eigen::MatrixXd> data_;
  Eigen::VectorXd x_, x0_;
  std::vector<std::array<int, 3>> active_;
  ParametersLexLSI param_;
};
} // namespace internal
} // namespace LexLS
