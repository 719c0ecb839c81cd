#!/usr/bin/env python3
"""Mutation testing of the checks. usage: mutate.py LIST_OUT [seed] > list of mutants (json lines)
Each mutant: {"file","line","old","new","op"}; run by mutrun.py."""
import re, sys, glob, random, json
repo = "/repo"
seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
headers = len(sys.argv) > 2 and sys.argv[2] == "h"
random.seed(seed)
if headers:
    files = [f for f in glob.glob(repo + "/include/**/*.h*", recursive=True)]
else:
    files = [f for f in glob.glob(repo + "/src/**/*.cpp", recursive=True)]
files = sorted(f for f in files if not any(e in f for e in ("/robot/", "Robot.", "/sch.", "exceptions.h", "api.h", "hidden")))
def muts(line):
    out = []
    code = re.split(r'//', line)[0]
    s = code.strip()
    if not s or s.startswith(("#", "*", "/*", "using", "namespace", "template", "std::cout", "static_assert", "assert", "friend", "class", "struct", "enum", "typename", "public", "private")):
        return out
    q = [m.span() for m in re.finditer(r'"[^"]*"', code)]
    inq = lambda i: any(a <= i < b for a, b in q)
    def sub(pat, rep, op):
        for m in re.finditer(pat, code):
            if inq(m.start()): continue
            n = code[:m.start()] + m.expand(rep) + code[m.end():]
            if n != code: out.append((n, op))
    sub(r' == ', ' != ', 'eq'); sub(r' != ', ' == ', 'ne')
    sub(r' < ', ' <= ', 'lt'); sub(r' <= ', ' < ', 'le'); sub(r' > ', ' >= ', 'gt'); sub(r' >= ', ' > ', 'ge')
    sub(r' && ', ' || ', 'and'); sub(r' \|\| ', ' && ', 'or')
    sub(r' \+ ', ' - ', 'add'); sub(r' - ', ' + ', 'sub'); sub(r' \+= ', ' -= ', 'add'); sub(r' -= ', ' += ', 'sub')
    sub(r' (\+=|-=) ', ' = ', 'acc')
    sub(r'\btrue\b', 'false', 'true'); sub(r'\bfalse\b', 'true', 'false')
    sub(r'\bif\((.*)\)\s*$', r'if(!(\1))', 'if')
    sub(r'(?<![\w.])0(?![\w.])', '1', '0'); sub(r'(?<![\w.])1(?![\w.])', '0', '1'); sub(r'(?<![\w.])1(?![\w.])', '2', '1')
    sub(r'(?<=[(,= ])-(?=[a-zA-Z(])', '', 'neg')
    sub(r'(?<=[(\s])!(?=[a-zA-Z(])', '', 'not')
    sub(r'\blower', 'upper', 'lu'); sub(r'\bl\(\)', 'u()', 'lu'); sub(r'\bu\(\)', 'l()', 'lu')
    sub(r'\.rows\(\)', '.cols()', 'rc'); sub(r'\.cols\(\)', '.rows()', 'rc')
    sub(r'\bbreak;', ';', 'break'); sub(r'\bcontinue;', ';', 'continue')
    if re.match(r'^(throw\b.*);$', s): out.append((code.replace(s, ";"), 'throw'))
    if re.match(r'^[\w.\->\[\]:_()*]+(\(.*\)|\s*[+\-*]?=\s.*)?(\+\+|--)?;$', s) and not re.match(r'^(return|throw|break|continue|delete|else|default|case)\b', s):
        out.append((code.replace(s, ";"), 'del'))
    return out
res = []
for f in files:
    incomment = False
    for i, l in enumerate(open(f, encoding="utf-8").read().split("\n")):
        if incomment:
            if "*/" in l: incomment = False
            continue
        if "/*" in l and "*/" not in l:
            incomment = True; continue
        for n, op in muts(l):
            res.append(dict(file=f[len(repo)+1:], line=i, old=l, new=n, op=op))
random.shuffle(res)
for r in res: print(json.dumps(r))
