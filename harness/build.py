#!/usr/bin/env python3
"""Writes build.ninja for the harness: TVM's sources are taken from the working tree of /repo.

usage: build.py MODE    with MODE in {asan, fuzz}
The build directory is /verif/build/MODE (ignored by git)."""
import os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
repo = os.environ.get("TVM_REPO", "/repo")
mode = sys.argv[1]
out = os.environ.get("VERIF_BUILD", os.path.join(verif, "build")) + "/" + mode
os.makedirs(out + "/gen/tvm", exist_ok=True)

def put(path, s):
    if not os.path.exists(path) or open(path).read() != s:
        open(path, "w").write(s)

# Generated headers
src = open(repo + "/include/tvm/supported_solvers.in.h").read()
for s in ("LSSOL", "QLD", "QUADPROG", "LEXLS"):
    src = src.replace("@TVM_USE_%s@" % s, "#define TVM_USE_" + s)

put(out + "/gen/tvm/supported_solvers.h", src)
put(out + "/gen/tvm/deprecated.hh", '#pragma once\n#define TVM_DEPRECATED [[deprecated]]\n#define TVM_DEPRECATED_MESSAGE(message) [[deprecated(#message)]]\n')
put(out + "/gen/pch.h", "#include <Eigen/Core>\n#include <Eigen/QR>\n#include <Eigen/SVD>\n#include <vector>\n#include <map>\n#include <memory>\n#include <functional>\n#include <sstream>\n#include <iostream>\n#include <algorithm>\n#include <unordered_map>\n#include <set>\n#include <string>\n#include <type_traits>\n")

excluded = ("/robot/", "/Robot.cpp", "/sch.cpp")
srcs = [f for f in sorted(glob.glob(repo + "/src/**/*.cpp", recursive=True)) if not any(e in f[len(repo):] for e in excluded)]
san = "-fsanitize=address,undefined -fno-sanitize=alignment,null,nonnull-attribute,vptr,pointer-overflow,float-divide-by-zero,function -fno-sanitize-recover=all"
if mode == "fuzz":
    san += " -fsanitize=fuzzer-no-link"
inc = "-I%s/gen -I%s/include -I%s/3rd-party -I%s/stubs -I%s -isystem /usr/include/eigen3" % (out, repo, repo, here, here)
cflags = "-std=c++17 -O1 -gline-tables-only -fno-omit-frame-pointer -DEIGEN_RUNTIME_NO_MALLOC -w " + san + " " + inc
if mode == "fuzz":
    cflags += " -DPBT_FUZZ"
n = []
w = n.append
w("ninja_required_version = 1.5")
w("cxx = clang++")
w("cflags = " + cflags)
w("rule cxx\n command = $cxx $cflags $extra -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in")
w("rule pch\n command = $cxx $cflags -x c++-header -MMD -MF $out.d $in -o $out\n depfile = $out.d\n deps = gcc\n description = PCH $in")
w("rule ar\n command = rm -f $out && ar crs $out $in\n description = AR $out")
w("rule link\n command = $cxx %s %s $in -o $out\n description = LINK $out" % (san, "-fsanitize=fuzzer" if mode == "fuzz" else ""))
pch = out + "/pch.h.pch"
w("build %s: pch %s/gen/pch.h" % (pch, out))
usep = "-include-pch " + pch
objs = []
for f in srcs:
    o = out + "/tvm/" + os.path.relpath(f, repo + "/src").replace("/", "_") + ".o"
    w("build %s: cxx %s | %s\n extra = %s -DTVM_EXPORTS" % (o, f, pch, usep))
    objs.append(o)
for f in sorted(glob.glob(here + "/stubs/*.cpp")):
    o = out + "/stubs/" + os.path.basename(f) + ".o"
    w("build %s: cxx %s | %s\n extra = %s" % (o, f, pch, usep))
    objs.append(o)
w("build %s/libtvm.a: ar %s" % (out, " ".join(objs)))
w("build %s/pbt.o: cxx %s/pbt.cpp | %s\n extra = %s" % (out, here, pch, usep))
for f in sorted(glob.glob(here + "/props/*.cpp")):
    b = os.path.basename(f)[:-4]
    w("build %s/props/%s.o: cxx %s | %s\n extra = %s" % (out, b, f, pch, usep))
    w("build %s/%s: link %s/props/%s.o %s/pbt.o %s/libtvm.a" % (out, b, out, b, out, out))
    w("build %s: phony %s/%s" % (b, out, b))
put(out + "/build.ninja", "\n".join(n) + "\n")
print(out)
