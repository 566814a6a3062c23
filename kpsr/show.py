"""python3 -m kpsr.show unit.cpp ROOT-REGEX [keep...] [-D..] [-k libkeep]: prints normalised functions."""
import os
import sys
from .build import Workspace, VERIF
a = sys.argv[1:]
defs = [x[2:] for x in a if x.startswith("-D")]
lk = [x[2:] for x in a if x.startswith("-k")]
il = [x[2:] for x in a if x.startswith("-i")]
a = [x for x in a if not x.startswith("-")]
src = a[0] if os.path.exists(a[0]) else os.path.join(VERIF, "units", a[0])
w = Workspace()
try:
    p = w.program(os.path.abspath(src), [a[1]], keep=a[2:], defs=defs, libkeep=lk, inline=il)
    for f in p.fns.values():
        print(f.dump())
finally:
    w.close()
