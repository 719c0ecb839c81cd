// Pools of variables, subvariables and derivatives described by the coordinates they cover.
#pragma once
#include "pbt.h"
#include <tvm/Range.h>
#include <tvm/Space.h>
#include <tvm/Variable.h>
#include <tvm/VariableVector.h>

namespace vars
{
using namespace tvm;
using pbt::Gen;

struct Tri
{
  int m, r, t;
  Space space() const { return Space(m, r, t); }
  Tri operator+(const Tri & o) const { return {m + o.m, r + o.r, t + o.t}; }
};

/** A root variable, whose space is the product of elementary spaces. Subvariables are products of consecutive factors.*/
struct Root
{
  std::string name;
  std::vector<Tri> elems;
  VariablePtr v;
  Tri cum(int k) const
  {
    Tri s{0, 0, 0};
    for(int i = 0; i < k; ++i) s = s + elems[static_cast<size_t>(i)];
    return s;
  }
  int n() const { return static_cast<int>(elems.size()); }
};

/** A variable covering the factors [e0, e0+ne) of a root, derived d times.*/
struct Piece
{
  VariablePtr p;
  int root, e0, ne, d;
  int start, size; // range in the value of the d-th derivative of the root
  std::string name;
  bool sameSuper(const Piece & o) const { return root == o.root && d == o.d; }
  bool contains(const Piece & o) const { return sameSuper(o) && start <= o.start && o.start + o.size <= start + size; }
  bool intersects(const Piece & o) const { return sameSuper(o) && start < o.start + o.size && o.start < start + size; }
  bool equals(const Piece & o) const { return sameSuper(o) && start == o.start && size == o.size; }
};

struct Pool
{
  std::vector<Root> roots;
  std::vector<Piece> pieces;
  int maxD = 0;

  Piece make(int r, int e0, int ne, int d)
  {
    Root & R = roots[static_cast<size_t>(r)];
    Tri s = R.cum(e0), e = R.cum(e0 + ne);
    Tri sp{e.m - s.m, e.r - s.r, e.t - s.t};
    VariablePtr p = (e0 == 0 && ne == R.n()) ? R.v : R.v->subvariable(sp.space(), R.name + "_" + std::to_string(e0) + "_" + std::to_string(e0 + ne - 1), s.space());
    if(d) p = dot(p, d);
    Piece q{p, r, e0, ne, d, d ? s.t : s.r, d ? sp.t : sp.r, {}};
    q.name = p->name();
    return q;
  }
};

/** @param euclidean only Euclidean spaces */
inline void genRoots(Gen & g, Pool & pool, int n, int maxElems, bool euclidean, int maxElemSize = 3)
{
  for(int i = 0; i < n; ++i)
  {
    Root R;
    R.name = std::string(1, static_cast<char>('x' - 3 * (i / 3) + i % 3));
    int k = g.range(1, maxElems);
    g.logs(R.name, ": ");
    for(int j = 0; j < k; ++j)
    {
      int kind = euclidean ? 0 : g.weighted({4, 1, 1});
      if(kind == 0)
      {
        int s = g.range(1, maxElemSize);
        R.elems.push_back({s, s, s});
        g.logs("R", s, " ");
      }
      else if(kind == 1)
      {
        R.elems.push_back({3, 4, 3});
        g.logs("SO3 ");
      }
      else
      {
        R.elems.push_back({2, 3, 2});
        g.logs("S2 ");
      }
    }
    R.v = R.cum(k).space().createVariable(R.name);
    pool.roots.push_back(R);
  }
  g.log("");
}

inline Piece genPiece(Gen & g, Pool & pool, int maxD = 0)
{
  int r = g.range(0, static_cast<int>(pool.roots.size()) - 1);
  int n = pool.roots[static_cast<size_t>(r)].n();
  int e0 = g.range(0, n - 1);
  int ne = g.range(1, n - e0);
  int d = maxD ? g.range(0, maxD) : 0;
  return pool.make(r, e0, ne, d);
}
} // namespace vars
