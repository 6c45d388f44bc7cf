"""Process set-up shared by every check: loads the library from the repository's
working tree (source only, never byte code) and knows every one of its code objects."""
import ctypes
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")
PKG = os.path.join(REPO, "fluids")
PYTHON = "/opt/venv/bin/python"

FIXED_ENV = {
    "NUMBA_FUNCTION_CACHE_SIZE": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0", "TZ": "UTC", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8",
}


def normalise_process(argv, overrides=None):
    """Re-exec once with a fixed environment and, where allowed, without address
    space randomisation, so that even id()-dependent behaviour replays."""
    want = dict(FIXED_ENV)
    want.update(overrides or {})
    if os.environ.get("DST_NORMAL") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env["DST_NORMAL"] = "1"
    for k in ("PYTHONPATH", "PYTHONPYCACHEPREFIX", "PYTHONSTARTUP"):
        env.pop(k, None)
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        cur = libc.personality(ctypes.c_ulong(0xFFFFFFFF))
        if cur != -1:
            libc.personality(ctypes.c_ulong(cur | 0x0040000))
    except Exception:
        pass
    os.execve(PYTHON, [PYTHON, "-X", "utf8"] + argv, env)


ALL_CODE = []          # every code object compiled from the package
_seen_code = set()


def _walk(code):
    yield code
    for k in code.co_consts:
        if isinstance(k, type(code)):
            yield from _walk(k)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = CODE_CACHE.get(path)
        if code is not None:
            return code
        with open(path, "rb") as f:
            src = f.read()
        code = compile(src, path, "exec", dont_inherit=True)
        for c in _walk(code):
            ALL_CODE.append(c)
            for hook in CODE_HOOKS:
                hook(c)
        return code


CODE_HOOKS = []
CODE_CACHE = {}        # path -> code object, filled by precompile()


def precompile():
    """Compile the whole package now, so that simulated processes load it without reading it again."""
    for d, _, fs in os.walk(PKG):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                CODE_CACHE[p] = Loader("x", p).get_code("x")


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "fluids" and not name.startswith("fluids."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(name, init, loader=Loader(name, init),
                                                          submodule_search_locations=[base])
        f = base + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


def install_finder():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def fluids_modules():
    return {k: v for k, v in sys.modules.items() if k == "fluids" or k.startswith("fluids.")}


def fresh_instance(extra=()):
    """Import an independent instance of the package (a simulated process image)."""
    saved = fluids_modules()
    for k in saved:
        del sys.modules[k]
    try:
        importlib.import_module("fluids")
        for e in extra:
            importlib.import_module(e)
        inst = fluids_modules()
    finally:
        for k in list(fluids_modules()):
            del sys.modules[k]
        sys.modules.update(saved)
    return inst


def activate(inst):
    for k in list(fluids_modules()):
        if k not in inst:
            del sys.modules[k]
    sys.modules.update(inst)
