"""Makes sure the compiled kernels that run are those of /repo's current .pyx sources.

If the in-tree shared objects correspond to the sources (build.sh's own stamp says so) they are
used as they are. Otherwise the sources are copied to a scratch directory, built there, and an
import hook redirects `pymoo.functions.compiled.*` to the fresh build. /repo is never written.
"""
import hashlib, importlib.abc, importlib.util, os, pathlib, re, shutil, subprocess, sys, tempfile

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
EXT = REPO / "pymoo/functions/compiled"
VERIF = pathlib.Path(__file__).resolve().parent.parent
CACHE = VERIF / ".cache"
PKG = "pymoo.functions.compiled"


def sources():
    return sorted(EXT.glob("*.pyx")) + sorted(EXT.glob("*.pxd"))


def source_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sources():
        h.update(p.name.encode())
        h.update(p.read_bytes())
    return h.hexdigest()[:20]


def in_tree_is_current():
    """The stamp of build.sh lists every source and product with its hash."""
    stamp = REPO / "build/vp-ext.stamp"
    if not stamp.exists():
        return False
    listed = {}
    for line in stamp.read_text().splitlines():
        m = re.match(r"^([0-9a-f]{64})\s+\*?(\S+)$", line)
        if m:
            listed[m.group(2)] = m.group(1)
    have = [p for p in sources()] + sorted(EXT.glob("*.so"))
    if not list(EXT.glob("*.so")):
        return False
    for p in have:
        rel = str(p.relative_to(REPO))
        if listed.get(rel) != hashlib.sha256(p.read_bytes()).hexdigest():
            return False
    for rel in listed:
        if rel.endswith((".pyx", ".pxd", ".so")) and not (REPO / rel).exists():
            return False
    return True


BUILD_SCRIPT = r"""
import glob, sys, numpy
from setuptools import setup, Extension
from Cython.Build import cythonize
cflags, lflags, directives = eval(sys.argv[1]), eval(sys.argv[2]), eval(sys.argv[3])
sys.argv = [sys.argv[0], "-q", "build_ext", "--inplace", "-j", "8"]
exts = []
for f in sorted(glob.glob("pymoo/functions/compiled/*.pyx")):
    name = f[:-4].replace("/", ".")
    exts.append(Extension(name, [f], language="c++", include_dirs=[numpy.get_include()],
                          extra_compile_args=cflags, extra_link_args=lflags))
setup(name="x", packages=[], ext_modules=cythonize(exts, force=True, quiet=True, compiler_directives=directives, nthreads=8))
"""


def build(kind="plain", cflags=("-O2",), lflags=(), directives=None, transform=None):
    """Builds the current sources in a cache directory and returns the directory with the .so files."""
    tag = source_hash(repr((kind, tuple(cflags), tuple(lflags), directives)))
    out = CACHE / f"ext-{kind}-{tag}"
    if (out / "ok").exists():
        return out
    CACHE.mkdir(exist_ok=True)
    # keep the cache small
    for old in CACHE.glob(f"ext-{kind}-*"):
        shutil.rmtree(old, ignore_errors=True)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="vbuild-", dir=CACHE))
    try:
        d = tmp / "pymoo/functions/compiled"
        d.mkdir(parents=True)
        for q in (tmp / "pymoo", tmp / "pymoo/functions", d):
            (q / "__init__.py").write_text("")
        for p in sources():
            txt = p.read_text()
            if transform:
                txt = transform(p.name, txt)
            (d / p.name).write_text(txt)
        (tmp / "b.py").write_text(BUILD_SCRIPT)
        env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", PYTHONPATH="", LD_PRELOAD="")
        r = subprocess.run([sys.executable, "b.py", repr(list(cflags)), repr(list(lflags)), repr(directives or {})],
                           cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sos = list(d.glob("*.so"))
        if r.returncode != 0 or len(sos) != len(list(EXT.glob("*.pyx"))):
            raise RuntimeError("the extensions do not build:\n" + r.stdout[-4000:])
        tgt = pathlib.Path(tempfile.mkdtemp(prefix="vout-", dir=CACHE))
        for so in sos:
            shutil.move(str(so), tgt / so.name)
        (tgt / "ok").write_text("")
        try:
            tgt.rename(out)
        except OSError:          # another process was faster
            shutil.rmtree(tgt, ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, folder):
        self.so = {p.name.split(".")[0]: p for p in pathlib.Path(folder).glob("*.so")}

    def find_spec(self, fullname, path=None, target=None):
        pkg, _, name = fullname.rpartition(".")
        if pkg == PKG and name in self.so:
            return importlib.util.spec_from_file_location(fullname, str(self.so[name]))
        return None


def redirect(folder):
    assert not any(m.startswith(PKG + ".") for m in sys.modules), "compiled kernels imported before the redirection"
    sys.meta_path.insert(0, _Finder(folder))


def install():
    """Called once before pymoo is imported. Returns which build is in use."""
    forced = os.environ.get("VERIF_EXT_DIR")
    if forced:
        redirect(forced)
        return forced
    if in_tree_is_current():
        return "in-tree"
    out = build("plain")
    redirect(out)
    return str(out)
