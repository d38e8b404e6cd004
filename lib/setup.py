import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, history, borrow, handles
os.makedirs(core.WORK, exist_ok=True)
cs = [s[0] for p in history.FILTER for s in history.sets(p)] + [borrow.DE, borrow.RE]
core.build_all(cs)
print("built %d configurations" % len({c.name for c in cs}))
borrow.scripts(2), borrow.scripts(3), handles.words(4)

import prog
prog.par(prog.lib, [("events",), (), ("c32",), ("wrap",)])
