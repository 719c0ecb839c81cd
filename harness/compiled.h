// Compiled assignments of any kind, built from their operands.
#pragma once
#include "pbt.h"
#include <tvm/scheme/internal/CompiledAssignmentWrapper.h>

namespace compiled
{
using namespace Eigen;
using namespace tvm::scheme::internal;

template<typename T>
struct Args
{
  Ref<T> to;
  Ref<const T> from;
  double c;
  const double & s;
  Ref<const VectorXd> w;
  Ref<const MatrixXd> M;
};

template<typename T, AssignType A, WeightMult W, MatrixMult M, Source F>
CompiledAssignmentWrapper<T> build(Args<T> & a)
{
  using CAW = CompiledAssignmentWrapper<T>;
  if constexpr(F == ZERO)
    return CAW::template make<A, W, M, F>(a.to);
  else
  {
    auto withM = [&](auto &... args) {
      if constexpr(M == IDENTITY)
        return CAW::template make<A, W, M, F>(args...);
      else
        return CAW::template make<A, W, M, F>(args..., a.M);
    };
    auto withW = [&](auto &... args) {
      if constexpr(W == SCALAR)
        return withM(args..., a.s);
      else if constexpr(W == DIAGONAL)
        return withM(args..., a.w);
      else
        return withM(args...);
    };
    if constexpr(F == EXTERNAL)
      return withW(a.to, a.from);
    else
      return withW(a.to, a.c);
  }
}

template<typename T>
using Maker = CompiledAssignmentWrapper<T> (*)(Args<T> &);

template<typename T, AssignType A, WeightMult W, MatrixMult M>
Maker<T> pickF(Source f)
{
  if(f == EXTERNAL) return &build<T, A, W, M, EXTERNAL>;
  if(f == ZERO) return &build<T, A, W, M, ZERO>;
  if constexpr(std::is_same_v<T, VectorXd>)
    return &build<T, A, W, M, CONSTANT>;
  else
    return nullptr;
}
template<typename T, AssignType A, WeightMult W>
Maker<T> pickM(MatrixMult m, Source f)
{
  if(m == IDENTITY) return pickF<T, A, W, IDENTITY>(f);
  if(m == GENERAL) return pickF<T, A, W, GENERAL>(f);
  return pickF<T, A, W, INVERSE_DIAGONAL>(f);
}
template<typename T, AssignType A>
Maker<T> pickW(WeightMult w, MatrixMult m, Source f)
{
  if(w == NONE) return pickM<T, A, NONE>(m, f);
  if(w == MINUS) return pickM<T, A, MINUS>(m, f);
  if(w == SCALAR) return pickM<T, A, SCALAR>(m, f);
  return pickM<T, A, DIAGONAL>(m, f);
}
template<typename T>
Maker<T> pickA(AssignType a, WeightMult w, MatrixMult m, Source f)
{
  if(a == COPY) return pickW<T, COPY>(w, m, f);
  if(a == ADD) return pickW<T, ADD>(w, m, f);
  if(a == SUB) return pickW<T, SUB>(w, m, f);
  if(a == MIN) return pickW<T, MIN>(w, m, f);
  return pickW<T, MAX>(w, m, f);
}

inline const char * an[] = {"COPY", "ADD", "SUB", "MIN", "MAX"};
inline const char * wn[] = {"NONE", "MINUS", "SCALAR", "DIAGONAL"};
inline const char * mn[] = {"IDENTITY", "GENERAL", "INVERSE_DIAGONAL", "CUSTOM"};
inline const char * fn[] = {"EXTERNAL", "ZERO", "CONSTANT"};

} // namespace compiled
