"""Builds, from the current C++ sources, the symbolic-scalar instantiation of the native module and the real one."""
import os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"

def includes(src):
    py = subprocess.run([VENV, "-c", "import sysconfig,pybind11;print(sysconfig.get_path('include'));print(pybind11.get_include())"], capture_output=True, text=True, check=True).stdout.split()
    return ["-I/usr/include/eigen3", "-I" + os.path.join(src, "include"), "-I" + src, *["-I" + x for x in py]]

def cmd(src, out, kind, extra):
    return ["g++", "-std=c++20", "-O0" if kind == "sym" else "-O1", "-fPIC", "-shared", "-fvisibility=hidden", "-w", *(["-DWITH_ORTH"] if extra else []), *(["-DSYM_MODULE=lanczos_sym"] if kind == "sym" else []), *includes(src), os.path.join(HERE, "native", kind + "_lanczos.cpp"), "-o", out]

def build(src, outdir, sym=True):
    """(path of the symbolic module or None, path of the real one); helpers that no longer exist under their name are left out"""
    so, sy = os.path.join(outdir, "_lanczos.so"), os.path.join(outdir, "lanczos_sym.so")
    procs = [("real", so, subprocess.Popen(cmd(src, so, "real", True), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))]
    if sym: procs.append(("sym", sy, subprocess.Popen(cmd(src, sy, "sym", True), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    for kind, out, p in procs:
        _, err = p.communicate()
        if p.returncode:
            r = subprocess.run(cmd(src, out, kind, False), capture_output=True)
            if r.returncode:
                if kind == "real": raise subprocess.CalledProcessError(r.returncode, "g++", stderr=r.stderr)
                print("NOTE the C++ sources do not compile for symbolic scalars:", [l for l in r.stderr.decode(errors="replace").splitlines() if "error" in l][:1])
                sy = None
    return (sy if sym else None), so
