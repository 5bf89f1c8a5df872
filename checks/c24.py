import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

# every lattice tetrahedron and triangle, every vertex order, both quadrature builds (harness/geom_mc.cpp)
ck = Check("C24")
for og in (0, 1):
    exe = build_harness("geom_mc%d" % og, ["geom_mc.cpp"], one_gauss=og, repo_cpp=("tetra.cpp", "triangle.cpp"), cflags=("-O2",), libs=["-ltbb", "-fopenmp"])
    run_sharded(ck, exe)
ck.sample("all 4-subsets (non coplanar) of {0,1,2}^3 x 24 vertex orders, all 3-subsets (non aligned) x 6 orders, 4 scalings/translations, ONE_GAUSS_POINT 0 and 1")
ck.finish(exhaustive=True)
