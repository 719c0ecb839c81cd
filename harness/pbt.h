// A small property-based testing engine.
//
// A property is a function of a Gen. Every random decision is a call to Gen::draw, so that a case is
// entirely described by its sequence of choices: that sequence is what gets shrunk and what is written
// in a replay file. Cases run in forked workers so that asserts, sanitizer reports and hangs of the code
// under test are failures of a case and not of the harness.
#pragma once
#include <Eigen/Core>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
struct Failure : std::exception
{
  std::string msg;
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char * what() const noexcept override { return msg.c_str(); }
};
/** Thrown to abandon a case that turns out to be outside of the domain. Counted. */
struct Discard
{
};

inline uint64_t splitmix(uint64_t & s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

class Gen
{
public:
  // replay mode
  explicit Gen(std::vector<uint64_t> c) : replay_(true), choices_(std::move(c)) {}
  // random mode
  explicit Gen(uint64_t seed) : replay_(false), state_(seed) {}

  uint64_t draw(uint64_t n);

  /** Integer in [lo, hi], shrinks to lo. */
  int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint64_t>(hi - lo + 1))); }
  /** True with probability num/den, shrinks to false. */
  bool coin(int num = 1, int den = 2) { return static_cast<int>(draw(static_cast<uint64_t>(den))) >= den - num; }
  template<typename T>
  const T & pick(const std::vector<T> & v)
  {
    return v[draw(v.size())];
  }
  /** Index drawn according to weights*/
  int weighted(std::initializer_list<int> w)
  {
    int s = 0;
    for(int x : w) s += x;
    int r = static_cast<int>(draw(static_cast<uint64_t>(s)));
    int i = 0;
    for(int x : w)
    {
      if(r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  /** A multiple of 1/8 in [-m, m]; shrinks to 0, then to positive and integer values. */
  double real(double m = 5)
  {
    int64_t k = static_cast<int64_t>(draw(static_cast<uint64_t>(2 * 8 * m + 1)));
    // 0, 1, -1, 2, -2, ...
    int64_t z = (k & 1) ? (k + 1) / 2 : -(k / 2);
    return static_cast<double>(z) / 8;
  }
  double nonZero(double m = 5)
  {
    double r = real(m);
    return r == 0 ? 1.0 : r;
  }
  double positive(double m = 5) { return (1 + static_cast<double>(draw(static_cast<uint64_t>(8 * m)))) / 8; }
  /** Same as real, with generic (non dyadic) values, so that accidental equalities are unlikely. */
  double generic(double m = 3)
  {
    uint64_t k = draw(2000001);
    if(k == 0) return 0;
    double a = m * static_cast<double>((k * 7919u) % 2000003u) / 2000003.;
    return (k & 1) ? a : -a;
  }
  Eigen::VectorXd vec(int n, double m = 5)
  {
    Eigen::VectorXd v(n);
    for(int i = 0; i < n; ++i) v[i] = real(m);
    return v;
  }
  Eigen::VectorXd posVec(int n, double m = 5)
  {
    Eigen::VectorXd v(n);
    for(int i = 0; i < n; ++i) v[i] = positive(m);
    return v;
  }
  Eigen::MatrixXd mat(int r, int c, double m = 5)
  {
    Eigen::MatrixXd v(r, c);
    for(int j = 0; j < c; ++j)
      for(int i = 0; i < r; ++i) v(i, j) = real(m);
    return v;
  }
  /** Cheap generic matrix: a single choice, expanded deterministically. Does not shrink entry-wise. */
  Eigen::MatrixXd bulk(int r, int c, double m = 2)
  {
    uint64_t s = draw(1u << 20);
    uint64_t st = s * 77 + 5;
    Eigen::MatrixXd v(r, c);
    for(int j = 0; j < c; ++j)
      for(int i = 0; i < r; ++i) v(i, j) = m * (2 * (static_cast<double>(splitmix(st) >> 11) * 0x1.0p-53) - 1);
    return v;
  }
  Eigen::VectorXd bulkVec(int n, double m = 2) { return bulk(n, 1, m); }

  template<typename... A>
  void log(const A &... a)
  {
    (log_ << ... << a);
    log_ << '\n';
    publish();
  }
  template<typename... A>
  void logs(const A &... a)
  {
    (log_ << ... << a);
    publish();
  }
  /** Counts the cases which went through the class given by name.*/
  void tag(const char * name) { tags_.push_back(name); }
  void nontrivial() { ++nontrivial_; }

  std::string logText() const { return log_.str(); }
  const std::vector<uint64_t> & consumed() const { return consumed_; }
  const std::vector<const char *> & tags() const { return tags_; }
  int nontrivialCount() const { return nontrivial_; }

private:
  /** In replay mode, makes the log available even if the case crashes.*/
  void publish();

  bool replay_;
  uint64_t state_ = 0;
  std::vector<uint64_t> choices_;
  size_t pos_ = 0;
  std::vector<uint64_t> consumed_;
  std::ostringstream log_;
  std::vector<const char *> tags_;
  int nontrivial_ = 0;
};

using PropFn = void (*)(Gen &);
struct Prop
{
  const char * name;
  PropFn fn;
  int quick; // number of cases in the quick tier
  int thorough; // number of cases in the thorough tier
};
struct Registrar
{
  Registrar(const char * name, PropFn fn, int quick, int thorough);
};
/** To be defined once per binary*/
struct Info
{
  const char * id;
  const char * rule;
};
extern const Info info;

template<typename T>
inline std::string str(const T & t)
{
  std::ostringstream s;
  s.precision(17);
  s << t;
  return s.str();
}
template<>
inline std::string str(const Eigen::VectorXd & v)
{
  std::ostringstream s;
  s << "[" << v.transpose() << "]";
  return s.str();
}
template<typename D>
inline std::string mstr(const Eigen::MatrixBase<D> & m)
{
  std::ostringstream s;
  s << m.rows() << "x" << m.cols() << "[";
  for(Eigen::Index i = 0; i < m.rows(); ++i)
  {
    if(i) s << "; ";
    for(Eigen::Index j = 0; j < m.cols(); ++j) s << (j ? " " : "") << m(i, j);
  }
  s << "]";
  return s.str();
}

[[noreturn]] inline void fail(const std::string & m) { throw Failure(m); }

/** Comparison with an absolute and relative tolerance. NaNs and infinities of the same kind are different/equal. */
inline bool close(double a, double b, double tol = 1e-9)
{
  if(a == b) return true;
  if(!std::isfinite(a) || !std::isfinite(b)) return false;
  return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b)));
}
template<typename A, typename B>
inline bool close(const Eigen::MatrixBase<A> & a_, const Eigen::MatrixBase<B> & b_, double tol = 1e-9)
{
  if(a_.rows() != b_.rows() || a_.cols() != b_.cols()) return false;
  double scale = 1;
  Eigen::MatrixXd a = a_, b = b_;
  for(Eigen::Index i = 0; i < a.size(); ++i)
    if(std::isfinite(b.data()[i])) scale = std::max(scale, std::abs(b.data()[i]));
  for(Eigen::Index i = 0; i < a.size(); ++i)
  {
    double x = a.data()[i], y = b.data()[i];
    if(x == y) continue;
    if(!std::isfinite(x) || !std::isfinite(y)) return false;
    if(std::abs(x - y) > tol * scale) return false;
  }
  return true;
}
} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(NAME, QUICK, THOROUGH)                                   \
  static void NAME(pbt::Gen &);                                           \
  static pbt::Registrar PBT_CAT(reg_, NAME)(#NAME, &NAME, QUICK, THOROUGH); \
  static void NAME([[maybe_unused]] pbt::Gen & g)

#define REQUIRE(COND, ...)                                                                                  \
  do                                                                                                        \
  {                                                                                                         \
    if(!(COND))                                                                                             \
    {                                                                                                       \
      std::ostringstream pbt_s_;                                                                            \
      pbt_s_ << __FILE__ << ":" << __LINE__ << ": " << #COND << " is false. " << pbt_detail::cat(__VA_ARGS__); \
      throw pbt::Failure(pbt_s_.str());                                                                     \
    }                                                                                                       \
  } while(0)

#define REQUIRE_CLOSE(A, B, ...)                                                                          \
  do                                                                                                      \
  {                                                                                                       \
    if(!pbt::close((A), (B)))                                                                             \
    {                                                                                                     \
      std::ostringstream pbt_s_;                                                                          \
      pbt_s_ << __FILE__ << ":" << __LINE__ << ": " << #A << " != " << #B << "\n  got      "              \
             << pbt_detail::show(A) << "\n  expected " << pbt_detail::show(B) << "\n  "                   \
             << pbt_detail::cat(__VA_ARGS__);                                                             \
      throw pbt::Failure(pbt_s_.str());                                                                   \
    }                                                                                                     \
  } while(0)

namespace pbt_detail
{
inline std::string cat() { return {}; }
template<typename... A>
std::string cat(const A &... a)
{
  std::ostringstream s;
  (s << ... << a);
  return s.str();
}
template<typename D>
std::string show(const Eigen::MatrixBase<D> & m)
{
  return pbt::mstr(m);
}
inline std::string show(double d) { return pbt::str(d); }
} // namespace pbt_detail

/** Check that EXPR throws EXC (or a derived class).*/
#define REQUIRE_THROWS(EXPR, EXC, ...)                                                              \
  do                                                                                                \
  {                                                                                                 \
    bool pbt_thrown_ = false;                                                                       \
    try                                                                                             \
    {                                                                                               \
      EXPR;                                                                                         \
    }                                                                                               \
    catch(const EXC &)                                                                              \
    {                                                                                               \
      pbt_thrown_ = true;                                                                           \
    }                                                                                               \
    REQUIRE(pbt_thrown_, "expected an exception from " #EXPR ". ", pbt_detail::cat(__VA_ARGS__));   \
  } while(0)
