"""Prepares a Python process in which `import qampy` means /repo's current working tree.

QAMpy has two pythran extensions that are built in place.  The checks must see what the current source
says, and /opt/vp/build.sh is not run before a check, so the extension beside a source is used only if the
current source still translates to the C++ it was built from.  Otherwise the source is built in a scratch
directory.
Nothing is ever written under /repo or /opt/vp.
"""
import glob
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
PY = "/opt/venv/bin/python"
EXTS = ("qampy/core/pythran_dsp", "qampy/core/equalisation/pythran_equalisation")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch = None


def _normal(cpp):
    """the statements of a generated C++ file, without what differs between two translations of one source"""
    names, out = {}, []
    for line in cpp.splitlines():
        line = line.strip()
        if line.startswith(("typedef", "#include", "using ")):
            continue
        line = re.sub(r"__[A-Za-z]+\d{9,}", lambda m: names.setdefault(m.group(), "NAME%d" % len(names)), line)
        out.append(re.sub(r"__(p?)type\d+", r"__\1type", line))
    return out


def _translate(ext, tmp):
    """translates the current source to C++ (a few seconds)"""
    base = os.path.join(tmp, os.path.basename(ext))
    shutil.copyfile(os.path.join(REPO, ext + ".py"), base + ".py")
    env = dict(os.environ, HOME="/root", PATH="/opt/venv/bin:/usr/bin:/bin", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    return base + ".cpp", subprocess.Popen([PY, "-m", "pythran.run", "-E", base + ".py", "-o", base + ".cpp"], cwd=tmp, env=env,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def _stale():
    """(extensions to build, extension -> usable .so): an extension is usable if translating the current
    source gives the C++ that lies beside it (build.sh makes and deletes the two together)"""
    tmp = tempfile.mkdtemp(prefix="verif-cpp-")
    stale, use = [], {}
    try:
        jobs = [(ext,) + _translate(ext, tmp) for ext in EXTS]
        for ext, out, proc in jobs:
            proc.wait()
            sos = glob.glob(os.path.join(REPO, ext + ".cpython-*.so"))
            try:
                same = _normal(open(out).read()) == _normal(open(os.path.join(REPO, ext + ".cpp")).read())
            except OSError:
                same = False
            if same and len(sos) == 1:
                use[ext] = sos[0]
            else:
                stale.append(ext)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return stale, use


def build_scratch(exts):
    """builds the extensions from /repo's current source in a scratch directory"""
    global scratch
    scratch = tempfile.mkdtemp(prefix="verif-ext-")
    dst = os.path.join(scratch, "repo")
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".git", "build", "*.so", "*.cpp", "test", "docs", "Scripts",
                                                             "__pycache__"))
    env = dict(os.environ, HOME="/root", PATH="/opt/venv/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1",
               PIP_NO_INDEX="1", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "-j2"], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = {}
    for ext in exts:
        sos = glob.glob(os.path.join(dst, ext + ".cpython-*.so"))
        if not sos:
            sys.stdout.buffer.write(r.stdout[-4000:])
            raise SystemExit(2)
        out[ext] = sos[0]
    return out


class _ExtFinder:
    def __init__(self, table):
        self.table = {e.replace("/", "."): so for e, so in table.items()}

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        return importlib.util.spec_from_file_location(name, so)


def boot():
    """to be called once, before qampy is imported"""
    stale, table = _stale()
    if stale:
        print("building from the current source:", " ".join(stale), flush=True)
        table.update(build_scratch(stale))
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _ExtFinder(table))
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import qampy
    assert os.path.realpath(qampy.__file__).startswith(REPO + "/"), qampy.__file__
    from qampy.core import pythran_dsp
    from qampy.core.equalisation import pythran_equalisation
    assert pythran_dsp.__file__.endswith(".so") and pythran_equalisation.__file__.endswith(".so")
    return table


def cleanup():
    if scratch and os.path.isdir(scratch):
        shutil.rmtree(scratch, ignore_errors=True)
