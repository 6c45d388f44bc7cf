"""Several threads work on one object (or one model): scheduling, cuts, and comparison with private objects.

A plan holds tasks (lists of operations), preemptions [task, step, target], cuts [task, point, 'int'|'mem'] and follow-up
operations made when the threads are done.  The check supplies build(plan) -> object, run_op(object, op) -> value and
candidates(plan, log, entry) -> list of operation lists; an outcome is right if it is bit for bit what the last operation
of one of those lists gives on a private object in a fresh process."""
import copy
import json
import types

from . import boot, calls, engine, runner


def outcome(run_op, obj, op):
    try:
        return "V" + calls.canon(run_op(obj, op))
    except Exception as e:
        return "E" + calls.canon(e)


class World:
    def __init__(self, build, run_op, candidates=None, max_steps=3_000_000, canon=None):
        self.build, self.run_op, self.max_steps = build, run_op, max_steps
        self.candidates = candidates or (lambda plan, log, e: [[e["op"]]])
        self.alone_cache = {}

    def alone(self, plan, ops):
        k = json.dumps([plan.get("obj"), ops], sort_keys=True)
        if k not in self.alone_cache:
            def f():
                obj = self.build(plan)
                for o in ops[:-1]:
                    outcome(self.run_op, obj, o)
                return outcome(self.run_op, obj, ops[-1])
            r = runner.fork_call(f, 60)
            if r[0] == "err":
                raise runner.HarnessError(r[1])
            self.alone_cache[k] = r[1] if r[0] == "ok" else "H" + r[0]
        return self.alone_cache[k]

    def batch(self, plan, lists):
        """The same for many operation lists, each on an object of its own but in one process: cheaper, and enough to find that an
        outcome is right; one that seems wrong is judged by alone()."""
        def key(ops):
            return json.dumps([plan.get("obj"), ops], sort_keys=True)
        todo = {}
        for ops in lists:
            todo.setdefault(key(ops), ops)

        def f():
            out = {}
            for k, ops in todo.items():
                obj = self.build(plan)
                for o in ops[:-1]:
                    outcome(self.run_op, obj, o)
                out[k] = outcome(self.run_op, obj, ops[-1])
            return out
        r = runner.fork_call(f, 90)
        if r[0] == "err":
            raise runner.HarnessError(r[1])
        got = r[1] if r[0] == "ok" else {}
        return lambda ops: got.get(key(ops))

    def lengths(self, plan):
        """[(preemption points, interrupt points)] of each task run alone, from the start."""
        def f():
            out = []
            for ops in plan["tasks"]:
                log, sim = self.simulate({"obj": plan.get("obj"), "tasks": [ops], "preempt": [], "cuts": [], "after": []})
                out.append([sim.tasks[0].step, sim.tasks[0].ipoint])
            return out
        r = runner.fork_call(f, 60)
        return r[1] if r[0] == "ok" else [[1000, 500]] * len(plan["tasks"])

    def schedule(self, rng, plan, p_cut=0.35):
        """Draw preemptions and cuts, knowing the length of every task."""
        ln = self.lengths(plan)
        nt = len(ln)
        pre = []
        if nt > 1:
            mode = rng.random()
            if mode < 0.5:
                for _ in range(rng.choice([1, 1, 2, 3, 5])):
                    t = rng.randrange(nt)
                    pre.append([t, rng.randint(1, max(1, ln[t][0])), rng.choice([x for x in range(nt) if x != t])])
            else:
                gap = rng.choice([1, 2, 5, 20, 100, 400])
                for t in range(nt):
                    s, cap = 0, 300
                    if ln[t][0] > cap * gap:
                        s = rng.randint(0, ln[t][0] - cap * gap)
                    while s < ln[t][0] and cap:
                        s += 1 + (int(rng.expovariate(1.0 / gap)) if gap > 1 else 0)
                        pre.append([t, s, rng.choice([x for x in range(nt) if x != t])])
                        cap -= 1
        cuts = []
        if rng.random() < p_cut:
            for _ in range(rng.choice([1, 1, 2])):
                t = rng.randrange(nt)
                if ln[t][1]:
                    cuts.append([t, rng.randint(1, ln[t][1]) if rng.random() < 0.85 else min(ln[t][1], rng.randint(1, 12)), rng.choice(["int", "int", "mem"])])
        plan["preempt"], plan["cuts"] = engine.with_stalls(rng, pre), cuts
        return plan

    def simulate(self, plan, trace=None):
        sim = engine.Sim(plan["preempt"], plan["cuts"], max_steps=self.max_steps)
        log = []
        obj = self.build(plan)

        def body_of(t):
            def body():
                for j, op in enumerate(plan["tasks"][t]):
                    e = {"t": t, "j": j, "op": op, "start": sim.total, "end": None, "out": None}
                    log.append(e)
                    try:
                        v = ("V", self.run_op(obj, op))
                    except Exception as x:
                        v = ("E", x)
                    except engine.Interrupt as x:
                        v = ("I", x)
                    k = sim.tasks[t]
                    k.noyield += 1
                    try:
                        e["end"] = sim.total
                        cut = k.injected and v[0] in "EI" and any(v[1] is y for y in k.injected)
                        e["cut"] = bool(k.injected)
                        k.injected = []
                        e["out"] = "C" if cut else "I" if v[0] == "I" else v[0] + calls.canon(v[1])
                    finally:
                        k.noyield -= 1
            return body
        for t in range(len(plan["tasks"])):
            sim.spawn(body_of(t))
        sim.run()
        n = sum(len(t) for t in plan["tasks"])
        if not (sim.deadlock or sim.over):
            for j, op in enumerate(plan["after"]):
                log.append({"t": -1, "j": j, "op": op, "start": sim.total + 1 + 2 * j, "end": sim.total + 2 + 2 * j, "cut": False,
                            "out": outcome(self.run_op, obj, op)})
        return log, sim

    def apart(self, plan):
        """The simulated execution, in a process of its own: what it leaves behind must not reach the reference runs."""
        def f():
            log, sim = self.simulate(plan)
            return [log, {"switches": sim.switches, "fired": sim.fired, "deadlock": sim.deadlock, "over": sim.over, "stalled": sim.stalled}]
        r = runner.fork_call(f, 100)
        if r[0] == "err":
            raise runner.HarnessError(r[1])
        if r[0] != "ok":
            return [], types.SimpleNamespace(switches=[], fired={}, deadlock=None, over=True, stalled=0)
        return r[1][0], types.SimpleNamespace(**r[1][1])

    def execute(self, plan, describe=str):
        log, sim = self.apart(plan)
        viol = []
        stats = {"operations": len(log), "switches": len(sim.switches), "fault:interrupt": sim.fired.get("interrupt:int", 0),
                 "fault:alloc-failure": sim.fired.get("interrupt:mem", 0), "fault:preemption": len(sim.switches), "fault:stall": sim.stalled}
        if sim.deadlock:
            viol.append(["deadlock", "threads %s wait for each other for ever" % sim.deadlock])
        elif sim.over:
            viol.append(["no-progress", "the operations did not finish within %d steps" % self.max_steps])
        else:
            todo = []
            for e in log:
                # where a fault was absorbed inside an operation, its own answer is C10's and C13's subject
                if e["out"] is not None and e["out"] != "C" and not e["cut"]:
                    todo.append((e, self.candidates(plan, log, e)))
            quick = None if plan.get("isolate") else self.batch(plan, [ops for _, c in todo for ops in c])
            for e, cand in todo:
                if quick and any(quick(ops) == e["out"] for ops in cand):
                    continue
                want = [self.alone(plan, ops) for ops in cand]
                if e["out"] not in want and not any(w.startswith("H") for w in want):
                    from . import calcsim
                    who = "thread %d" % e["t"] if e["t"] >= 0 else "afterwards"
                    viol.append(["shared", "%s: %s gives %s; on a private object %s" % (who, describe(plan, e["op"]), calcsim.brief(e["out"]),
                                                                                     " or ".join(calcsim.brief(w) for w in want[:3]))])
        return {"violations": viol[:4], "key": json.dumps([plan.get("obj"), plan["tasks"], sim.switches, plan["cuts"]]), "stats": stats, "simtime": 0.0,
                "nontrivial": bool(sim.switches or plan["cuts"] or plan["after"])}


def shrink(plan):
    for part in ("cuts", "preempt"):
        n = len(plan[part])
        if n:
            p = dict(plan)
            p[part] = []
            yield p
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                p = dict(plan)
                p[part] = plan[part][:i] + plan[part][i + size:]
                yield p
            size //= 2
    for i in range(len(plan["tasks"])):
        if len(plan["tasks"]) > 1:
            p = copy.deepcopy(plan)
            del p["tasks"][i]
            p["preempt"] = [[a - (a > i), s, b - (b > i)] for a, s, b in p["preempt"] if a != i and b != i]
            p["cuts"] = [[a - (a > i), s, k] for a, s, k in p["cuts"] if a != i]
            yield p
        for j in range(len(plan["tasks"][i])):
            if len(plan["tasks"][i]) > 1:
                p = copy.deepcopy(plan)
                del p["tasks"][i][j]
                yield p
    for j in range(len(plan["after"])):
        p = copy.deepcopy(plan)
        del p["after"][j]
        yield p
