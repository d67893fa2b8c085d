#!/usr/bin/env python3
# subst.py FILE OLD NEW: replace exactly one occurrence (scratch edits)
import sys
p,a,b=sys.argv[1:4]
t=open(p).read()
assert t.count(a)>=1, "not found"
i=t.index(a); open(p,'w').write(t[:i]+b+t[i+len(a):])
