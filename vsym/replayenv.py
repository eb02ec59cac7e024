"""Private copies of the package under test (sources only; the native module is compiled on request)."""
import os, shutil, tempfile, subprocess, sysconfig, hashlib
VENV = "/opt/venv/bin/python"

def prepare(src, native=False):
    d = tempfile.mkdtemp(prefix="vprimate.")
    p = os.path.join(d, "primate"); os.mkdir(p)
    for f in os.listdir(src):
        if f.endswith((".py", ".cpp")): shutil.copy(os.path.join(src, f), p)
    if os.path.isdir(os.path.join(src, "include")): shutil.copytree(os.path.join(src, "include"), os.path.join(p, "include"))
    so = build_native(src, d) if native else ""
    return p, so, lambda: shutil.rmtree(d, ignore_errors=True)

def build_native(src, out):
    import sys
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vsym import nativebuild
    return nativebuild.build(src, out, sym=False)[1]
