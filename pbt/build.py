"""Builds the Cython modules of /repo's working tree outside of /repo.

The products are keyed by a hash of their sources and of the tool versions, so that every change of a
.pyx file is seen.  Returns the directory to put in front of sys.path.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "CasimirRio")
VT = "/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2]


class BuildError(Exception):
    pass


def build():
    import numpy
    import Cython
    pyx = sorted(glob.glob(os.path.join(SRC, "*.pyx")))
    if not pyx:
        raise BuildError("no .pyx file in %s" % SRC)
    h = hashlib.sha256()
    for f in pyx + sorted(glob.glob(os.path.join(SRC, "*.pxd"))):
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    h.update((sys.version + numpy.__version__ + Cython.__version__).encode())
    cache = os.path.join(VERIF, ".cache")
    dest = os.path.join(cache, "ext-" + h.hexdigest()[:24])
    if os.path.isdir(dest):
        return dest
    os.makedirs(cache, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="build-", dir=cache)
    try:
        inc = ["-I" + numpy.get_include(), "-I" + sysconfig.get_paths()["include"]]
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        procs = []
        for f in pyx + sorted(glob.glob(os.path.join(SRC, "*.pxd"))):
            shutil.copy(f, tmp)
        for f in pyx:
            name = os.path.basename(f)[:-4]
            cmd = ("'%s' -m cython '%s.pyx' -o '%s.c' && gcc -shared -fPIC -O2 -fwrapv -fno-strict-aliasing "
                   "-w %s '%s.c' -o '%s%s' -lm && rm -f '%s.c' '%s.pyx'" % (
                       sys.executable, name, name, " ".join(inc), name, name, suffix, name, name))
            procs.append((name, subprocess.Popen(cmd, shell=True, cwd=tmp, stdout=subprocess.PIPE,
                                                 stderr=subprocess.STDOUT, text=True)))
        for name, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                raise BuildError("building %s failed:\n%s" % (name, out))
        try:
            os.rename(tmp, dest)
        except OSError:
            if not os.path.isdir(dest):
                raise
        return dest
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup_path(ext):
    # the extension modules just built come first; Hypothesis lives in another environment, last
    sys.path[:0] = [ext, SRC]
    sys.path.append(VT)
