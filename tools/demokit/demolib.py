import os, subprocess, sys, math
FG = os.environ.get("FG")


def run(yml, name="s.yml", args=(), timeout=120, files=None, env=None):
    for k, v in (files or {}).items():
        if os.path.dirname(k): os.makedirs(os.path.dirname(k), exist_ok=True)
        open(k, "w").write(v)
    open(name, "w").write(yml)
    p = subprocess.run([FG, "--seed", "1", *args, name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       errors="replace", timeout=timeout, env=dict(os.environ, **(env or {})))
    return p


def table(path):
    cols, rows = [], []
    for l in open(path):
        if l.startswith("## columns:"): cols = l[len("## columns:"):].strip(" \n").split("\t")
        elif not l.startswith("#") and l.strip(): rows.append([float(x) for x in l.split()])
    return cols, rows


def fail(msg):
    print("DEMO: property broken:", msg); sys.exit(1)


def S(tf=1e-12, step=1e-12, extra="", mesh="tet.msh", vol="v: {Ms: 8e5, Ae: 1e-11, alpha_LLG: 0.5}", surf="s: {}", mag="[1, 0, 0]", bext="[0, 0, 0]",
      cols="[t, <Mx>, <My>, <Mz>]", every=0, ti="{max(du): 0.02, min(dt): 1e-18, max(dt): 1e-12}", base="o", dir="."):
    return f"""outputs:
  directory: {dir}
  file_basename: {base}
  evol_time_step: {step}
  final_time: {tf}
  evol_columns: {cols}
  mag_config_every: {every}
mesh:
  filename: {mesh}
  length_unit: 1e-9
  volume_regions: {{{vol}}}
  surface_regions: {{{surf}}}
initial_magnetization: {mag}
Bext: {bext}
finite_element_solver: {{tolerance: 1e-12}}
time_integration: {ti}
{extra}"""
