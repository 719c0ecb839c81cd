#include "compiled.h"
#include <memory>

using namespace compiled;

const pbt::Info pbt::info = {
    "P11",
    "vector, matrix: one of the 180 (vector) or 120 (matrix) combinations of assignment, weight, multiplication and source, on operands that are blocks of larger matrices, run several times through copies, "
    "moves and assignments of its wrapper, with modifications of all operands in place and re-targeting of source and destination (with changes of size where permitted) in between. Everything "
    "outside of the destination is compared with its previous value. Non-trivial: 3 runs or more with at least one re-targeting and one modification of a weight, multiplier or source. Distinctness: the sequence of choices."};

namespace
{
constexpr int B = 9;
/** A place in a larger matrix */
struct Place
{
  int which = 0;
  int r = 0, c = 0;
};

template<typename T>
void runCase(pbt::Gen & g)
{
  constexpr bool vec = std::is_same_v<T, VectorXd>;
  auto A = static_cast<AssignType>(g.range(0, 4));
  auto W = static_cast<WeightMult>(g.range(0, 3));
  auto M = static_cast<MatrixMult>(g.range(0, 2));
  auto F = static_cast<Source>(g.range(0, vec ? 2 : 1));
  // more of the usual source
  if(F == ZERO && g.coin()) F = EXTERNAL;
  g.log(vec ? "vector " : "matrix ", an[A], " ", wn[W], " ", mn[M], " ", fn[F]);

  // Operands
  MatrixXd dst[2] = {g.bulk(B, B), g.bulk(B, B)};
  MatrixXd src[2] = {g.bulk(B, B), g.bulk(B, B)};
  MatrixXd mul = g.bulk(B, B);
  MatrixXd wei = g.bulk(B, 2);
  double s = g.real();
  double c = g.real();

  // Sizes: to is rt x ct, from is rf x cf
  int rt = g.range(1, 5), ct = vec ? 1 : g.range(1, 5), rf = rt, cf = ct;
  int mr, mc;
  if(vec)
  {
    if(M == GENERAL) rf = g.range(1, 5);
    mr = rt;
    mc = rf;
  }
  else
  {
    if(M == GENERAL) cf = g.range(1, 5);
    mr = cf;
    mc = ct;
  }
  auto place = [&](int nr, int nc) {
    Place p;
    p.which = g.range(0, 1);
    p.r = g.range(0, B - nr);
    p.c = g.range(0, B - nc);
    return p;
  };
  Place pt = place(rt, ct), pf = place(rf, cf);
  int im = g.range(0, B - mr), jm = g.range(0, B - mc);
  int iw = g.range(0, B - rt), jw = g.range(0, 1);
  auto mulBlock = [&]() { return mul.block(im, jm, mr, mc); };
  auto fixMul = [&]() {
    if(M == INVERSE_DIAGONAL)
    {
      VectorXd d = mulBlock().diagonal();
      for(int i = 0; i < d.size(); ++i)
        if(std::abs(d[i]) < 0.1) d[i] = 0.5;
      mul.block(im, jm, mr, mc).setZero();
      mul.block(im, jm, mr, mc).diagonal() = d;
    }
  };
  fixMul();
  g.log("to ", rt, "x", ct, " from ", rf, "x", cf);

  auto toRef = [&]() -> Ref<T> {
    if constexpr(vec)
      return dst[pt.which].col(pt.c).segment(pt.r, rt);
    else
      return dst[pt.which].block(pt.r, pt.c, rt, ct);
  };
  auto fromMap = [&]() { return src[pf.which].block(pf.r, pf.c, rf, cf); };

  std::vector<std::unique_ptr<CompiledAssignmentWrapper<T>>> ws;
  auto mk = pickA<T>(A, W, M, F);
  {
    auto mkArgs = [&](const auto & fr) {
      Args<T> a{toRef(), fr, c, s, wei.col(jw).segment(iw, rt), mul.block(im, jm, mr, mc)};
      ws.push_back(std::make_unique<CompiledAssignmentWrapper<T>>(mk(a)));
    };
    if constexpr(vec)
      mkArgs(src[pf.which].col(pf.c).segment(pf.r, rf));
    else
      mkArgs(src[pf.which].block(pf.r, pf.c, rf, cf));
  }
  auto expected = [&](const MatrixXd & to) {
    MatrixXd f = MatrixXd::Zero(rt, ct);
    if(F != ZERO)
    {
      MatrixXd fr = F == CONSTANT ? MatrixXd(MatrixXd::Constant(rf, cf, c)) : MatrixXd(fromMap());
      MatrixXd m = mulBlock();
      if(M == INVERSE_DIAGONAL)
        for(int i = 0; i < m.rows(); ++i) m(i, i) = 1 / m(i, i);
      f.setZero();
      for(int i = 0; i < rt; ++i)
        for(int j = 0; j < ct; ++j)
        {
          double v = 0;
          if(M == IDENTITY)
            v = fr(i, j);
          else if(vec)
            for(int k = 0; k < rf; ++k) v += m(i, k) * fr(k, 0);
          else
            for(int k = 0; k < cf; ++k) v += fr(i, k) * m(k, j);
          if(W == MINUS) v = -v;
          if(W == SCALAR) v *= s;
          if(W == DIAGONAL) v *= wei(iw + i, jw);
          f(i, j) = v;
        }
    }
    MatrixXd r = to;
    for(int i = 0; i < rt; ++i)
      for(int j = 0; j < ct; ++j)
        switch(A)
        {
          case COPY:
            r(i, j) = f(i, j);
            break;
          case ADD:
            r(i, j) += f(i, j);
            break;
          case SUB:
            r(i, j) -= f(i, j);
            break;
          case MIN:
            r(i, j) = std::min(r(i, j), f(i, j));
            break;
          default:
            r(i, j) = std::max(r(i, j), f(i, j));
        }
    return r;
  };

  int runs = 0;
  bool ret = false, mod = false;
  int steps = g.range(2, 14);
  for(int k = 0; k < steps; ++k)
  {
    auto & w = *ws[0];
    switch(k == 0 ? 0 : g.weighted({8, 3, 2, 2, 2, 2, 2, 1, 2, 1}))
    {
      case 0: // run
      {
        MatrixXd d[2] = {dst[0], dst[1]};
        MatrixXd s0 = src[0], s1 = src[1], m0 = mul, w0 = wei;
        MatrixXd e = expected(dst[pt.which].block(pt.r, pt.c, rt, ct));
        d[pt.which].block(pt.r, pt.c, rt, ct) = e;
        w.run();
        g.log("run");
        ++runs;
        REQUIRE(s0 == src[0] && s1 == src[1] && m0 == mul && w0 == wei, "an operand is modified by the run");
        for(int q = 0; q < 2; ++q)
          for(int j = 0; j < B; ++j)
            for(int i = 0; i < B; ++i)
            {
              bool in = q == pt.which && i >= pt.r && i < pt.r + rt && j >= pt.c && j < pt.c + ct;
              if(in)
                REQUIRE(std::abs(dst[q](i, j) - d[q](i, j)) <= 1e-11 * (1 + std::abs(d[q](i, j))), "element (", i - pt.r, ",", j - pt.c, ") of the destination is ", dst[q](i, j),
                        " instead of ", d[q](i, j));
              else
                REQUIRE(dst[q](i, j) == d[q](i, j), "an element outside of the destination is modified");
            }
        // Avoid the growth of values
        dst[pt.which].block(pt.r, pt.c, rt, ct) = dst[pt.which].block(pt.r, pt.c, rt, ct).unaryExpr([](double v) { return std::fmod(v, 16.); });
        break;
      }
      case 1: // modification of the source
        src[pf.which].array() = g.bulk(B, B).array();
        if(F == CONSTANT)
        {
          c = g.real();
          w.from(c);
        }
        g.log("new source values");
        mod = true;
        break;
      case 2:
        mul.array() = g.bulk(B, B).array();
        fixMul();
        g.log("new multiplier");
        if(M != IDENTITY) mod = true;
        break;
      case 3:
        s = g.real();
        wei.array() = g.bulk(B, 2).array();
        g.log("new weight");
        if(W >= SCALAR) mod = true;
        break;
      case 4: // destination
      case 5: // source
      {
        bool newDst = g.coin() || F != EXTERNAL, newSrc = !newDst || g.coin();
        // Changes of size
        bool size = newDst && (newSrc || F != EXTERNAL) && g.coin();
        if(size && F != ZERO && F != CONSTANT && W != DIAGONAL)
        {
          if(M == IDENTITY)
          {
            rt = rf = g.range(1, 5);
            if(!vec) ct = cf = g.range(1, 5);
          }
          else if(!vec)
            rt = rf = g.range(1, 5); // the multiplier imposes the number of columns
        }
        else if(size && F == ZERO)
        {
          rt = g.range(1, 5);
          if(!vec) ct = g.range(1, 5);
          rf = rt;
          cf = ct;
        }
        else if(size && F == CONSTANT && M == IDENTITY && W != DIAGONAL)
          rt = rf = g.range(1, 5);
        if(newDst)
        {
          pt = place(rt, ct);
          w.to(toRef());
          g.log("new destination, ", rt, "x", ct);
        }
        if(newSrc && F == EXTERNAL)
        {
          pf = place(rf, cf);
          if constexpr(vec)
            w.from(src[pf.which].col(pf.c).segment(pf.r, rf));
          else
            w.from(src[pf.which].block(pf.r, pf.c, rf, cf));
          g.log("new source, ", rf, "x", cf);
        }
        ret = true;
        break;
      }
      case 6: // copy, the original being destroyed
      {
        auto n = std::make_unique<CompiledAssignmentWrapper<T>>(w);
        ws[0] = std::move(n);
        g.log("copy");
        break;
      }
      case 7: // move
      {
        auto n = std::make_unique<CompiledAssignmentWrapper<T>>(std::move(w));
        ws[0] = std::move(n);
        g.log("move");
        break;
      }
      case 8: // assignment to another wrapper, with another type of assignment
      {
        std::unique_ptr<CompiledAssignmentWrapper<T>> n;
        if(g.coin(1, 4))
          n = std::make_unique<CompiledAssignmentWrapper<T>>();
        else
        {
          auto t = toRef();
          n = std::make_unique<CompiledAssignmentWrapper<T>>(
              g.coin() ? CompiledAssignmentWrapper<T>::template make<COPY, NONE, IDENTITY, ZERO>(t)
                       : CompiledAssignmentWrapper<T>::template make<MIN, SCALAR, IDENTITY, EXTERNAL>(t, t, s));
        }
        if(g.coin())
          *n = w;
        else
          *n = std::move(w);
        ws[0] = std::move(n);
        g.log("assignment");
        break;
      }
      default: // Illegal sources
        if(F == CONSTANT)
        {
          Ref<const T> f = toRef();
          REQUIRE_THROWS(w.from(f), std::runtime_error, "giving a matrix to a constant source");
        }
        else
          REQUIRE_THROWS(w.from(1.), std::runtime_error, "giving a constant to a non-constant source");
        g.log("refused source");
    }
  }
  if(runs >= 3 && ret && mod) g.nontrivial();
}
} // namespace

PROPERTY(vector, 120000, 2000000)
{ runCase<VectorXd>(g); }
PROPERTY(matrix, 90000, 1500000)
{ runCase<MatrixXd>(g); }
