#!/usr/bin/env python3
# cu2cpp.py IN OUT: replaces the inline PTX assembly of a CUDA source by calls of an interpreter of it (ptx.hpp)
import re, sys
s = open(sys.argv[1]).read()
def literal(i):  # string literal at i -> (raw text with quotes, end)
    j = i + 1
    while s[j] != '"':
        j += 2 if s[j] == '\\' else 1
    return s[i:j + 1], j + 1
def balanced(i):  # s[i] == '(' -> index after the matching one
    d = 0
    while True:
        if s[i] == '"': i = literal(i)[1]; continue
        if s[i] == '(': d += 1
        if s[i] == ')':
            d -= 1
            if d == 0: return i + 1
        i += 1
def skip(i):
    while True:
        m = re.compile(r'\s+|//[^\n]*\n|/\*.*?\*/', re.S).match(s, i)
        if not m: return i
        i = m.end()
out, pos = [], 0
for m in re.finditer(r'\b(asm|__asm__)(\s+(volatile|__volatile__))?\s*\(', s):
    if m.start() < pos: continue
    out.append(s[pos:m.start()])
    i, end, text, ops = m.end(), balanced(m.end() - 1), [], []
    i = skip(i)
    while s[i] == '"':
        t, i = literal(i); text.append(t); i = skip(i)
    while i < end - 1:
        i = skip(i)
        if s[i] in ':,': i += 1; continue
        if s[i] == '"':
            c, i = literal(i); i = skip(i)
            if i < end - 1 and s[i] == '(':
                j = balanced(i); ops.append((c[1:-1], s[i + 1:j - 1])); i = j
            continue
        if i >= end - 1: break
        sys.exit("cannot parse the assembly at offset %d" % i)
    w = lambda c: 8 if 'l' in c else 4 if 'r' in c else 2 if 'h' in c else sys.exit("constraint " + c)
    args = ", ".join(("ptx::Ref(%s, %d)" % (e, w(c))) if c[0] in '+=' else ("ptx::Val((uint64_t)(%s), %d)" % (e, w(c))) for c, e in ops)
    out.append("do { static const ptx::Prog _prog(%s, %d); _prog.run({%s}); } while (0)" % (" ".join(text), len(ops), args))
    pos = end
out.append(s[pos:])
open(sys.argv[2], "w").write("".join(out))
