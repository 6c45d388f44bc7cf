"""The surrounding process: clock and entropy seam, settings put on and snapshots taken of them."""
import ctypes
import decimal
import gc
import hashlib
import locale
import os
import random
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import boot

HERE = os.path.dirname(os.path.abspath(__file__))


def shim():
    """Path of the compiled clock seam (built on first use)."""
    src = os.path.join(HERE, "native", "ambient.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    d = os.path.join(tempfile.gettempdir(), "dst-native.%d" % os.getuid())
    so = os.path.join(d, "ambient-%s.so" % h)
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = "%s.%d" % (so, os.getpid())
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src], check=True)
        os.rename(tmp, so)
    return so


LOCALES = ("de_DE", "tr_TR")


def locale_path():
    """Directory with compiled non-English locales, or None where they cannot be built."""
    d = os.path.join(tempfile.gettempdir(), "dst-native.%d" % os.getuid(), "locale")
    os.makedirs(d, exist_ok=True)
    for n in LOCALES:
        out = os.path.join(d, n + ".UTF-8")
        if not os.path.isdir(out):
            tmp = "%s.%d" % (out, os.getpid())
            r = subprocess.run(["localedef", "--no-archive", "-c", "-i", n, "-f", "UTF-8", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode not in (0, 1) or not os.path.isdir(tmp):
                return None
            try:
                os.rename(tmp, out)
            except OSError:
                pass
    return d


class Clock:
    def __init__(self):
        lib = ctypes.CDLL(None)
        try:
            self.on = ctypes.c_int.in_dll(lib, "dst_clock_on")
        except ValueError:
            self.on = None
            return
        g = ctypes.c_longlong.in_dll
        self.offset, self.mono, self.step, self.reads = (g(lib, "dst_" + n) for n in ("offset_ns", "mono_ns", "step_ns", "reads"))
        self.entropy = ctypes.c_ulonglong.in_dll(lib, "dst_entropy")
        self.entropy_reads = g(lib, "dst_entropy_reads")

    def set(self, offset_s, step_s, entropy):
        if self.on is None:
            return
        self.offset.value = int(offset_s * 1e9)
        self.mono.value = int(abs(offset_s) * 1e9)
        self.step.value = int(step_s * 1e9)
        self.entropy.value = entropy
        self.reads.value = 0
        self.on.value = 1

    def off(self):
        if self.on is not None:
            self.on.value = 0
            self.entropy.value = 0


class Ambient:
    """Puts a configuration on this process."""

    def __init__(self, cfg, scratch):
        import numpy
        self.np = numpy
        self.cfg = cfg
        self.clock = Clock()
        for k, v in cfg.get("env", {}).items():
            os.environ[k] = v
        if cfg.get("tz"):
            os.environ["TZ"] = cfg["tz"]
            time.tzset()
        if cfg.get("locale"):
            try:
                locale.setlocale(locale.LC_ALL, cfg["locale"])
                self.localised = True
            except locale.Error:
                self.localised = False
        if cfg.get("cwd"):
            os.makedirs(os.path.join(scratch, cfg["cwd"]), exist_ok=True)
            os.chdir(os.path.join(scratch, cfg["cwd"]))
        if cfg.get("pyseed") is not None:
            random.seed(cfg["pyseed"])
        if cfg.get("npseed") is not None:
            numpy.random.seed(cfg["npseed"])
        if cfg.get("seterr"):
            numpy.seterr(**cfg["seterr"])
        if cfg.get("prec"):
            decimal.getcontext().prec = cfg["prec"]
        if cfg.get("clock"):
            self.clock.set(*cfg["clock"])

    def done(self):
        if self.cfg.get("clock"):
            self.clock.off()

    def call(self, fn):
        t = self.cfg.get("thread")
        if not t:
            return fn()
        out = []
        # identities of threads are reused and may be anything: some come and go first
        for _ in range(t[1]):
            q = threading.Thread(target=lambda: None)
            q.start()
            q.join()

        def body():
            self.thread_settings()
            out.append(fn())
        q = threading.Thread(target=body, name=t[0])
        q.start()
        q.join()
        return out[0]

    def thread_settings(self):
        # numpy and decimal settings belong to a thread
        if self.cfg.get("seterr"):
            self.np.seterr(**self.cfg["seterr"])
        if self.cfg.get("prec"):
            decimal.getcontext().prec = self.cfg["prec"]

    def snapshot(self):
        np = self.np
        s = np.random.get_state()
        return {
            "environment": dict(os.environ),
            "working directory": os.getcwd(),
            "time zone": (time.tzname, time.timezone, time.localtime(0).tm_hour),
            "locale": locale.setlocale(locale.LC_ALL),
            "standard random stream": random.getstate(),
            "numpy random stream": (s[0], s[1].tobytes(), s[2:]),
            "numpy error settings": (np.geterr(), np.geterrcall()),
            "decimal context": (decimal.getcontext().prec, decimal.getcontext().rounding),
            "recursion limit": sys.getrecursionlimit(),
            "interrupt handler": signal.getsignal(signal.SIGINT),
            "garbage collector": gc.isenabled(),
            "thread switch interval": sys.getswitchinterval(),
            "trace function": (sys.gettrace(), sys.getprofile()),
            "standard streams": (id(sys.stdout), id(sys.stderr)),
        }
