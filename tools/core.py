#!/usr/bin/env python3
"""Prints an unsat core of a script's assertions (development aid); -g drops the goal."""
import sys, subprocess
f = sys.argv[-1]
lines = open(f).read().split('\n')
out, names = ['(set-option :produce-unsat-cores true)'], {}
asserts = [i for i, l in enumerate(lines) if l.startswith('(assert ')]
last = asserts[-1]
for i, l in enumerate(lines):
    if l.startswith('(assert '):
        if i == last and '-g' in sys.argv:
            continue
        n = 'n%d' % i
        names[n] = l
        out.append('(assert (! %s :named %s))' % (l[len('(assert '):-1], n))
    elif l.startswith('(get-') :
        continue
    else:
        out.append(l)
out.append('(get-unsat-core)')
r = subprocess.run(['z3-new', '-in', '-T:60'], input='\n'.join(out), capture_output=True, text=True).stdout
print(r[:60])
for n in r.split('\n')[1].strip('()').split():
    print(n, names.get(n, '?')[:700])
