"""Shared simulation of the station-year store: archive, network, disk, processes, crashes."""
import os
import random
import shutil

from . import boot, engine, simfs, simnet

INST = []
SCRATCH = None

HEADER = ("STN--- WBAN   YEARMODA    TEMP       DEWP      SLP        STP       VISIB      WDSP     MXSPD   "
          "GUST    MAX     MIN   PRCP   SNDP   FRSHTT\n")


def text_for(station, year, version, nlines):
    """A published file; every (station, year, version) text is unique."""
    rng = random.Random("%s/%s/%s/%s" % (station, year, version, nlines))
    wmo, wban = station.split("-")
    out = [HEADER]
    for d in range(nlines):
        m, day = d // 28 % 12 + 1, d % 28 + 1
        t = rng.uniform(-20, 110)
        out.append("%6s %5s  %4d%02d%02d  %6.1f 24  %6.1f 24  %6.1f 24  %6.1f 24  %5.1f 24  %5.1f 24  %5.1f  %5.1f  "
                   "%6.1f  %6.1f  %5.2fG %5.1f  %s\n"
                   % (wmo, wban, int(year), m, day, t, t - 9.0, 1010 + version, 1000.0, 7.0 + rng.randint(0, 20) / 10,
                      rng.randint(0, 300) / 10, 12.0, 999.9, t + 9, t - 9, rng.randint(0, 90) / 100, 999.9,
                      "".join(rng.choice("01") for _ in range(6))))
    return "".join(out)


STATIONS = [[724050, "13743"], [724050, None], [None, "13743"], [724051, "13743"], [72405, "13743"],
            [724050, "03743"], [999999, "00103"], [240501, "37437"], [724050, "99998"], [None, None],
            [712650, None], [7126501, None]]


def station_key(st):
    wmo = 999999 if st[0] is None else st[0]
    wban = 99999 if st[1] is None else st[1]
    return "%d-%s" % (int(wmo), wban)


def prepare(n_instances=6, line=True, interrupts=False, preload=()):
    global SCRATCH
    boot.install_finder()
    import numpy  # noqa: F401
    import scipy.spatial  # noqa: F401
    import gzip, zlib, tempfile, sqlite3, datetime, shutil  # noqa: F401,E401
    import scipy.spatial._ckdtree  # noqa: F401
    engine.install_threading()
    simnet.install()
    simfs.install()
    boot.CODE_HOOKS.append(engine.monitor_new_code)
    for _ in range(n_instances):
        INST.append(boot.fresh_instance(["fluids.design_climate"]))
    boot.activate(INST[0])
    # only the climate module's code is a preemption site here
    codes = [c for c in boot.ALL_CODE if c.co_filename.endswith("design_climate.py")
             or not _known_pure(c.co_filename)]
    for m in preload:
        __import__(m)
    engine.monitor(codes, line=line, interrupts=interrupts)
    engine.install_import_guard()
    SCRATCH = simfs._os["getpid"]()


_PURE = None


def _known_pure(fn):
    # any module other than the calculation modules (a new helper module, say) is also a site
    global _PURE
    if _PURE is None:
        _PURE = {"atmosphere", "compressible", "control_valve", "core", "drag", "filters", "fittings", "flow_meter",
                 "friction", "geometry", "jet_pump", "mixing", "numba", "numba_vectorized", "open_flow",
                 "packed_bed", "packed_tower", "particle_size_distribution", "piping", "pump", "safety_valve",
                 "saltation", "separator", "two_phase", "two_phase_voidage", "units", "vectorized"}
    base = os.path.basename(fn)[:-3]
    return base in _PURE or "/numerics/" in fn or "/optional/" in fn or "/nrlmsise00/" in fn or "/constants/" in fn


class World:
    def __init__(self, plan):
        self.plan = plan
        base = os.environ.get("DST_TMP", "/tmp")
        self.root = os.path.join(base, "dst-%d" % simfs._os["getpid"](), "r")
        shutil.rmtree(os.path.dirname(self.root), ignore_errors=True)
        os.makedirs(self.root)
        self.fs = simfs.SimFS(self.root, (), plan.get("strict", True))
        simfs.FS = self.fs
        self.archive = {}
        self.stats = {}
        self.simtime = 0.0
        self.next_inst = 0
        self.ops = []            # history
        self.seq = 0
        self.viol = []
        self.switches = []
        self.power_lost = False

    def close(self):
        simfs.FS = None
        shutil.rmtree(os.path.dirname(self.root), ignore_errors=True)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def cache_dir(self, mode):
        return self.root + "/cache" if mode == 0 else self.root + "/home/gsod"

    def publish(self, st, year, version, n):
        self.archive.setdefault((station_key(st), year), []).append(text_for(station_key(st), year, version, n))

    def phase(self, procs, body, disk=(), net=(), preempt=(), net_up=True, max_steps=400_000, interrupts=(),
              insts=None):
        """procs: list of processes, each a list of tasks, each a list of ops; body(world, inst, task, op).
        insts: the images of processes that are still running, to go on in them; new ones otherwise."""
        going_on = insts is not None
        if not going_on:
            if self.next_inst + len(procs) > len(INST):
                raise RuntimeError("not enough process images")
            insts = INST[self.next_inst:self.next_inst + len(procs)]
            self.next_inst += len(procs)
        sim = engine.Sim(preempt, interrupts=interrupts, max_steps=max_steps)
        sim.now = self.simtime
        netw = simnet.SimNet(self.archive, net)
        netw.up = net_up
        simnet.NET = netw
        fs = self.fs
        fs.faults = {(f[0], f[1]): f[2:] for f in disk}
        fs.count = {}
        fs.log = []
        if not going_on:
            fs.fds = {}
            fs.poison = {}
            fs.flocks = {}
        self.sim, self.net = sim, netw
        if len(insts) > 1:
            sim.on_switch = lambda t: boot.activate(insts[t.proc])
        boot.activate(insts[0])

        def power(arg):
            self.power_lost = True
            for p in range(len(procs)):
                me = sim.me()
                if p != me.proc:
                    sim.kill_proc(p)
            fs.enabled = False
            fs.power_loss(random.Random(arg))
            fs.enabled = True
            sim.kill_proc(sim.me().proc)
        fs.on_power = power

        tid = 0
        for p, tasks in enumerate(procs):
            for ops in tasks:
                def main(p=p, ops=ops, tid=tid, inst=insts[p]):
                    for j, op in enumerate(ops):
                        body(self, inst, tid, j, op)
                sim.spawn(main, proc=p)
                tid += 1
        sim.run()
        self.simtime = sim.now
        self.survivors = [] if self.power_lost else [i for p, i in enumerate(insts)
                          if all(t.state == "done" for t in sim.tasks if t.proc == p)]
        self.switches.append(sim.switches)
        for k, n in sim.fired.items():
            self.stat("fault:" + k, n)
        for t in sim.tasks:
            if t.state == "dead":
                self.stat("probe:task-killed-midway")
            if t.exc is not None and not isinstance(t.exc, Exception):
                if not isinstance(t.exc, (engine.SimAbort,)):
                    self.viol.append(["non-ordinary-exception", "%r" % t.exc])
        if sim.deadlock:
            if netw.hung:
                self.viol.append(["unbounded-wait", "a lookup waits for a silent archive without any timeout"])
            else:
                self.viol.append(["deadlock", "tasks %s can never proceed" % sim.deadlock])
        elif netw.hung:
            self.viol.append(["unbounded-wait", "a lookup waits for a silent archive without any timeout"])
        if sim.over:
            self.viol.append(["no-progress", "step budget exhausted"])
        simnet.NET = None
        return sim


def get_body(w, inst, tid, j, op):
    """One lookup, recorded in the history."""
    _, st, year, mode = op
    dc = inst["fluids.design_climate"]
    dc.data_dir = w.root + "/home"
    w.seq += 1
    rec = {"tid": tid, "op": op, "start": w.seq, "t0": w.sim.now, "end": None, "ok": None,
           "fired0": dict(w.sim.fired)}
    w.ops.append(rec)
    d0 = disk_faults(w.sim)
    try:
        if mode == 0:
            v = dc.get_station_year_text(st[0], st[1], year, data_dir_override=w.cache_dir(0))
        else:
            v = dc.get_station_year_text(st[0], st[1], year)
        rec["ok"], rec["value"] = True, v
    except Exception as e:
        rec["ok"], rec["exc"] = False, "%s: %s" % (type(e).__name__, str(e).replace(w.root, "ROOT")[:300])
    w.seq += 1
    rec["end"] = w.seq
    rec["t1"] = w.sim.now
    # any disk fault in the world while this ran
    rec["disk_fault"] = disk_faults(w.sim) != d0


def disk_faults(sim):
    return sum(n for k, n in sim.fired.items() if k.startswith("disk-") and k != "disk-short-write")


def is_published(w, op, value):
    vs = w.archive.get((station_key(op[1]), op[2]), [])
    return value in vs


def describe(v):
    if isinstance(v, str):
        return "text of %d characters, %d lines, starting %r" % (len(v), v.count("\n"), v[:60])
    return "%s %r" % (type(v).__name__, v if len(repr(v)) < 80 else repr(v)[:80])
