#!/usr/bin/env python3
"""Authoring aid: expand list shorthands in a .qnt file, in place, into built-in folds and quantifiers.

Quint's evaluator does not support re-entering a user-defined operator through its own callback, so the
specifications use only built-in higher-order operators.  This tool lets one write
  rmap(n, i => e)  lmap(l, x => e)   lists      isum(n, i => e)             sum
  iall(n, i => p)  iany(n, i => p)   0..n-1     lall(l, x => p) lany(...)   over a list
  imaxv(n, i => e)                   maximum of nonnegative values over 0..n-1
and rewrites them."""
import re, sys
NAMES = 'rmap|lmap|isum|iall|iany|lall|lany|imaxv'
PAT = re.compile(r'\b(%s)\(' % NAMES)
def close(s, i):
    d = 0
    while True:
        if s[i] in '([{': d += 1
        if s[i] in ')]}':
            d -= 1
            if d == 0: return i
        i += 1
def split_top(a):
    out, d, cur = [], 0, ''
    for ch in a:
        if ch in '([{': d += 1
        if ch in ')]}': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    return out + [cur]
def expand(s):
    k = max([int(x) for x in re.findall(r'\b[lsqh](\d+)\b', s)] + [0])
    while True:
        ms = list(PAT.finditer(s))
        if not ms: return s
        m = ms[-1]; i = m.end() - 1; j = close(s, i)
        args = split_top(s[i+1:j]); n = args[0].strip(); lam = ','.join(args[1:]).strip()
        v, e = lam.split('=>', 1); v, e = v.strip(), e.strip()
        k += 1; nm = m.group(1)
        if nm == 'rmap': r = 'range(0, %s).foldl([], (l%d, %s) => l%d.append(%s))' % (n, k, v, k, e)
        elif nm == 'lmap': r = '%s.foldl([], (l%d, %s) => l%d.append(%s))' % (n, k, v, k, e)
        elif nm == 'isum': r = 'range(0, %s).foldl(0, (s%d, %s) => s%d + %s)' % (n, k, v, k, e)
        elif nm == 'imaxv': r = 'range(0, %s).foldl(0, (s%d, %s) => max2(s%d, %s))' % (n, k, v, k, e)
        elif nm == 'iall': r = '0.to(%s - 1).forall(%s => %s)' % (n, v, e)
        elif nm == 'iany': r = '0.to(%s - 1).exists(%s => %s)' % (n, v, e)
        elif nm == 'lall': r = '%s.foldl(true, (q%d, %s) => q%d and (%s))' % (n, k, v, k, e)
        elif nm == 'lany': r = '%s.foldl(false, (q%d, %s) => q%d or (%s))' % (n, k, v, k, e)
        s = s[:m.start()] + r + s[j+1:]
for p in sys.argv[1:]:
    s = open(p).read()
    # '->' and '=>' are not brackets; comments are left alone as long as they use none of the names
    open(p, 'w').write(expand(s))
