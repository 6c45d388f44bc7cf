"""Development-time: picks a diverse, cheap, deterministic subset of the recorded calls -> corpus/calls.jsonl
   /opt/venv/bin/python tools/select_corpus.py IN.jsonl"""
import json
import os
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import boot  # noqa: E402
boot.normalise_process([os.path.abspath(__file__)] + sys.argv[1:])
from dst import calls, runner  # noqa: E402
import random  # noqa: E402

boot.install_finder()
warnings.simplefilter("ignore")
calls.preload()
calls.load_core()
MAXL = 400000
src, dst = sys.argv[1], sys.argv[2]
keep = int(sys.argv[3]) if len(sys.argv) > 3 else 14
by = {}
for line in open(src):
    r = json.loads(line)
    by.setdefault(r["k"], []).append(r)


def measure(rec):
    mon = sys.monitoring
    n = [0]

    class Stop(BaseException):
        pass

    def ev(code, line):
        n[0] += 1
        if n[0] > MAXL:
            raise Stop
    mon.use_tool_id(3, "cost")
    mon.register_callback(3, mon.events.LINE, ev)
    for c in boot.ALL_CODE:
        mon.set_local_events(3, c, mon.events.LINE)
    try:
        o = calls.outcome(rec)
    except Stop:
        return [MAXL + 1, ""]
    return [n[0], o]


rng = random.Random(7)
flat = []
for k in sorted(by):
    rs = by[k]
    rng.shuffle(rs)
    # diversity: argument names, strings, bools, None
    groups = {}
    for r in rs:
        p = calls.parts(r)
        sig = json.dumps([sorted(p["kw"]), len(p["args"]), [v for n, v in sorted(p["kw"].items()) if isinstance(v, (str, bool)) or v is None]])
        groups.setdefault(sig, []).append(r)
    order = []
    gl = list(groups.values())
    while gl:
        for g in list(gl):
            order.append(g.pop())
            if not g:
                gl.remove(g)
    flat += [(k, r) for r in order[:keep * 2]]
res = runner.pmap(lambda i: measure(flat[i][1]), range(len(flat)), timeout=40)
res2 = runner.pmap(lambda i: measure(flat[i][1]), range(len(flat)), timeout=40)
cnt = {}
drop = {}
with open(dst, "w") as f:
    for (k, r), a, b in zip(flat, res, res2):
        if a[0] != "ok" or b[0] != "ok" or a[1] != b[1]:
            drop.setdefault((k, "nondet/err"), []).append(a if a[0] != "ok" else "")
            continue
        n, o = a[1]
        if n > MAXL:
            drop.setdefault((k, "slow"), []).append(n)
            continue
        if cnt.get(k, 0) >= keep:
            continue
        cnt[k] = cnt.get(k, 0) + 1
        r["n"] = n
        f.write(json.dumps(r) + "\n")
print(len(cnt), sum(cnt.values()))
for d, v in drop.items():
    print(d, len(v), str(v[0])[:300])
