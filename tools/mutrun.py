#!/usr/bin/env python3
"""mutrun.py LIST OUT K N DIR: worker K of N; meant to run inside a private mount namespace in which DIR/repo and DIR/verif
are mounted over /repo and /verif. For each mutant of LIST: build + existing tests; survivors are given to the checks."""
import json, sys, subprocess, os, time
lst, out, K, N = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
M = {
 'src/utils/checkFunction': 'P22', 'src/internal/RangeCounting': 'P03', 'src/hint/SubstitutionUnit': 'P14 P16', 'src/internal/MatrixProperties': 'P04 P12 P14',
 'src/solver/LexLSHier': 'P17', 'src/solver/LeastSquareSolver': 'P15 P16', 'src/graph/Log.': 'P24', 'src/graph/Logger': 'P24', 'src/task_dynamics/': 'P08 P07',
 'src/graph/DependencyGraph': 'P10 P09 P14', 'src/solver/LexLSLeast': 'P15 P16 P26', 'src/hint/DiagonalCalculator': 'P13 P14', 'src/utils/UpdatelessFunction': 'P23', 'src/solver/Quadprog': 'P15 P16 P26',
 'src/diagnostic': 'P24', 'src/Variable.cpp': 'P01 P02', 'src/constraint/BasicLinear': 'P06 P12', 'src/VariableVector.cpp': 'P02', 'src/solver/LSSOL': 'P15 P16 P26', 'src/solver/QLD': 'P15 P16 P26',
 'src/hint/Substitutions.cpp': 'P14 P16 P18', 'src/hint/SubstitutionCalculatorImpl': 'P13 P14', 'src/solver/HierarchicalLeastSquareSolver': 'P17', 'src/internal/VariableCounting': 'P03 P14',
 'src/hint/Substitution.cpp': 'P14 P16', 'src/constraint/LinearizedTask': 'P07 P06 P15', 'src/hint/Generic': 'P13 P14', 'src/LinearizedControlProblem': 'P18 P16 P15', 'src/ControlProblem': 'P18',
 'src/graph/CallGraph': 'P09', 'src/graph/Inputs': 'P09', 'src/function/Basic': 'P06 P05', 'src/internal/FirstOrder': 'P06 P07 P05', 'src/constraint/': 'P06 P07 P12', 'src/Task.cpp': 'P05 P07', 'src/function/': 'P06 P07 P23',
 'src/Space': 'P01', 'src/hint/Auto': 'P13 P14', 'src/Clock': 'P25', 'src/event': 'P19', 'src/scheme/Assignment.cpp': 'P12 P15', 'src/scheme/AssignmentTarget': 'P12 P15', 'src/scheme/Weighted': 'P15 P16', 'src/scheme/Hier': 'P17',
 'src/scheme/helpers': 'P15 P16', 'src/scheme/': 'P15 P17 P16 P26',
 'include/tvm/function/BasicLinear': 'P06 P05', 'include/tvm/task_dynamics/': 'P08', 'include/tvm/graph/abstract/Node': 'P09', 'include/tvm/graph/abstract/Out': 'P20 P09', 'include/tvm/utils/Updateless': 'P23',
 'include/tvm/solver/abstract/Least': 'P15 P16', 'include/tvm/solver/abstract/Hier': 'P17', 'include/tvm/internal/MatrixProp': 'P04', 'include/tvm/internal/MatrixWith': 'P04 P06', 'include/tvm/internal/Pair': 'P19',
 'include/tvm/internal/Callback': 'P19 P21', 'include/tvm/solver/internal/Solver': 'P16 P17', 'include/tvm/internal/RangeC': 'P03', 'include/tvm/utils/ProtoTask': 'P05', 'include/tvm/graph/internal/Inputs': 'P09', 'include/tvm/Space': 'P01',
 'include/tvm/graph/internal/Log': 'P24', 'include/tvm/Variable.h': 'P01 P02', 'include/tvm/internal/VariableVectorP': 'P03', 'include/tvm/utils/internal/Aff': 'P05', 'include/tvm/utils/Aff': 'P05', 'include/tvm/internal/enums': 'P04 P12',
 'include/tvm/utils/internal/Map': 'P23 P02', 'include/tvm/defs': 'P05', 'include/tvm/Range': 'P02 P03', 'include/tvm/diagnostic': 'P24', 'include/tvm/requirements': 'P21', 'include/tvm/Task.h': 'P07 P05', 'include/tvm/graph/internal/Abs': 'P09',
 'include/tvm/constraint': 'P12 P06 P07', 'include/tvm/VariableV': 'P02', 'include/tvm/Control': 'P18', 'include/tvm/utils/internal/map': 'P09 P10 P24', 'include/tvm/utils/internal/Buff': 'P11', 'include/tvm/internal/ObjWithId': 'P02',
 'include/tvm/function': 'P06', 'include/tvm/utils/graph': 'P09', 'include/tvm/utils/internal/graph': 'P09', 'include/tvm/utils/check': 'P22', 'include/tvm/internal/First': 'P06', 'include/tvm/hint': 'P13 P14', 'include/tvm/Linearized': 'P18',
 'include/tvm/internal/IdP': 'P02', 'include/tvm/scheme/internal/Comp': 'P11', 'include/tvm/scheme/internal/Assignment.': 'P12 P11', 'include/tvm/scheme': 'P15 P16 P17', 'include/tvm/event': 'P19', 'include/tvm/solver': 'P15 P17',
 'src/geometry': 'P25', 'include/tvm/geometry': 'P25',
}
def checks(f):
    best = max((k for k in M if f.startswith(k)), key=len, default=None)
    return M[best].split() if best else []
def sh(cmd, t):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, ''
E = os.environ
E['VERIF_SEED'] = '1'
for i, l in enumerate(open(lst)):
    if i % N != K: continue
    d = json.loads(l)
    cs = checks(d['file'])
    if not cs: continue
    f = '/repo/' + d['file']
    src = open(f, encoding='utf-8').read()
    L = src.split('\n')
    if L[d['line']] != d['old']: continue
    L[d['line']] = d['new']
    t0 = time.time(); res = None
    try:
        open(f, 'w', encoding='utf-8').write('\n'.join(L))
        rc, o = sh('ninja -j3 -C /repo/_build', 900)
        if rc: res = 'nobuild'
        else:
            rc, o = sh('bash /opt/vp/test.sh /tmp/t%d.json' % K, 200)
            try:
                t = json.load(open('/tmp/t%d.json' % K)); ok = len(t['passed']) >= 93 and not t['failed']
            except Exception: ok = False
            os.path.exists('/tmp/t%d.json' % K) and os.remove('/tmp/t%d.json' % K)
            if not ok: res = 'tests'
        if res is None:
            res = 'MISSED'
            for c in cs:
                if not os.path.exists('/verif/harness/props/%s.cpp' % c): continue
                rc, o = sh('cd /verif && python3 harness/build.py asan >/dev/null && ninja -j3 -C build/asan %s >/dev/null' % c, 900)
                if rc: res = 'nobuild'; break
                rc, o = sh('cd /verif && PBT_WORKERS=2 ./check.sh %s quick' % c, 600)
                if rc == 1 and 'VIOLATION' in o: res = c; break
                if rc != 0: res = 'NOANSWER %s rc=%d' % (c, rc)
    finally:
        open(f, 'w', encoding='utf-8').write(src)
    d['res'] = res; d['time'] = round(time.time() - t0)
    open(out, 'a').write(json.dumps(d) + '\n')
