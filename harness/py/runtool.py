"""Run the repository's Python programs, one forked process per job (JSON lines on stdin: cwd, argv, stdin, env).
argv[0] is the program; stubs/ holds stand-ins for the libraries that are not installed."""
import sys, os, json, io, runpy, traceback
sys.dont_write_bytecode = True
pkg = sys.argv[1]
sys.path.insert(0, pkg)
sys.path.append("/usr/lib/python3/dist-packages")     # gmsh, yaml
sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
import numpy, gmsh, yaml, argparse, glob, re
for line in sys.stdin:
    j = json.loads(line)
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.chdir(j["cwd"])
            for k in ("DISPLAY",): os.environ.pop(k, None)
            for k, v in j["env"].items(): os.environ[k] = v
            fd = os.open("/dev/null", os.O_RDONLY)
            if j["stdin"] is not None:
                open(".stdin", "w", encoding="utf-8").write(j["stdin"])
                fd = os.open(".stdin", os.O_RDONLY)
            os.dup2(fd, 0)
            o = os.open(".stdout", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            e = os.open(".stderr", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(o, 1); os.dup2(e, 2)
            sys.stdin = io.TextIOWrapper(os.fdopen(0, "rb"), encoding="utf-8")
            sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb"), encoding="utf-8")
            sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb"), encoding="utf-8")
            # nothing is written out of the scratch directory, whatever the program computes
            root = os.path.realpath(j["root"]) + os.sep

            def guard(ev, a):
                if ev == "open": w = (isinstance(a[1], str) and any(c in a[1] for c in "wax+")) or (a[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
                else: w = ev in ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.truncate", "os.symlink", "os.link", "shutil.rmtree", "subprocess.Popen", "os.system", "os.exec")
                if w and a[0] != "/dev/null" and not (isinstance(a[0], (str, bytes)) and os.path.realpath(os.fsdecode(a[0])).startswith(root)) and not (ev == "open" and isinstance(a[0], int)):
                    raise (FileNotFoundError if ev == "subprocess.Popen" else PermissionError)("guard: %s %r" % (ev, a[:2]))
            sys.addaudithook(guard)
            sys.argv = j["argv"]
            code = 0
            try:
                runpy.run_path(j["argv"][0], run_name="__main__")
            except SystemExit as x:
                code = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
                if isinstance(x.code, str): sys.stderr.write(x.code + "\n")
            except BaseException:
                traceback.print_exc(); code = 1
            if "h5py" in sys.modules: sys.modules["h5py"]._flush()
            try: sys.stdout.flush()
            except ValueError: pass
            sys.stderr.flush()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    sys.stdout.write(json.dumps(os.waitstatus_to_exitcode(st)) + "\n")
    sys.stdout.flush()
