"""Run the repository's mesh makers on a list of jobs (JSON on stdin): [[file, class, constructor args, extra], ...]"""
import sys, os, json, io, contextlib, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
sys.path.append("/usr/lib/python3/dist-packages")     # gmsh
import feellgood.meshMaker as M
import gmsh

PRED = {"none": lambda x, y, z: False, "all": lambda x, y, z: True, "zmax": lambda x, y, z, v=None: z >= v - 1e-9, "zmin": lambda x, y, z, v=None: z <= v + 1e-9,
        "xmax": lambda x, y, z, v=None: x >= v - 1e-9, "xmin": lambda x, y, z, v=None: x <= v + 1e-9, "ymax": lambda x, y, z, v=None: y >= v - 1e-9,
        "cell": lambda x, y, z, v=None: v[0] - 1e-9 <= x <= v[0] + 1 + 1e-9 and v[1] - 1e-9 <= y <= v[1] + 1 + 1e-9 and z >= v[2] - 1e-9,
        "ymin": lambda x, y, z, v=None: y <= v + 1e-9}
FUNC = {"id": lambda p: p, "scale": lambda p: [2 * p[0], 3 * p[1], .5 * p[2]], "shear": lambda p: [p[0] + .3 * p[1], p[1] - .2 * p[2], p[2]],
        "swap": lambda p: [p[1], p[2], p[0]], "mirror": lambda p: [-p[0], p[1], p[2]], "zero min": lambda p: [p[0] + 1, p[1], p[2] - 2],
        "zero max": lambda p: [p[0] - 2, p[1] - 4, p[2] - 7], "tuple": lambda p: (1e-3 * p[0] + 1, 100 * p[1], p[2] + 1e3)}
for job in json.load(sys.stdin):
    fn, cls, args, kw, make, extra = job
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            o = getattr(M, cls)(*args, **kw)
            for e in extra:
                if e[0] == "sub":
                    v = e[3] if len(e) > 3 else None
                    o.add_sub_surface(e[1], (lambda f, v: lambda x, y, z: f(x, y, z, v))(PRED[e[2]], v) if v is not None else PRED[e[2]])
                else:
                    o.transformNodes(FUNC[e[1]])
            o.make(fn, *make)
            if kw.get("fileFormat") in (2.1, 3.0, 4.0):
                gmsh.initialize(); gmsh.option.setNumber("General.Terminal", 0); gmsh.open(fn); gmsh.option.setNumber("Mesh.MshFileVersion", 4.1)
                gmsh.option.setNumber("Mesh.Binary", 0); gmsh.write(fn + ".41.msh"); gmsh.finalize(); os.rename(fn + ".41.msh", fn + ".41")
        r = ["ok", out.getvalue()]
    except BaseException as e:
        r = ["error", "".join(traceback.format_exception_only(type(e), e)).strip()]
        if gmsh.isInitialized(): gmsh.finalize()
    sys.__stdout__.write(json.dumps([fn] + r) + "\n")
    sys.__stdout__.flush()
