import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

ck = Check("C12")
exe = build_harness("solvers_mc", ["solvers_mc.cpp"], libs=["-ltbb", "-fopenmp"], cflags=("-O2",))
print(run_sharded(ck, exe)[:600])
ck.sample("see harness/solvers_mc.cpp for the enumeration; shards partition it statically")
ck.finish(exhaustive=True)
