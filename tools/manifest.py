"""Writes MANIFEST.json: every property with a check in dst/checks is claimed, the rest must have a reason here."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = ("pure function of its input: no schedule, clock, fault, crash or history it could depend on; "
        "generating inputs would be property-based testing, not simulation")
NA = {
    "N01": PURE, "N02": PURE, "N03": PURE, "N04": PURE, "N05": PURE, "N06": PURE,
}
NOTE = {
    "C01": "seeded search over schedules, network and disk faults, kills and power loss; the disk model is a shadow page cache (DESIGN.md)",
    "C02": "seeded search over schedules, faults and kills; bounded-time progress once faults stop",
    "C03": "seeded search over download/parse histories with failing years and disk faults against a small reference model",
    "C04": "seeded search over line-level interleavings and faults of the first load",
    "C05": "seeded search over kills, power loss and faults in a rebuild with concurrent readers",
    "C06": "seeded search over address histories, processes, threads, storage faults and kills; sqlite is real, its errors injected",
    "C07": "seeded search over storage faults, kills and threads; sqlite is real, its errors injected",
    "C08": "real library code under a line-level scheduler; expected values from isolated runs of the same call",
    "C09": "real library code; seeded call histories; expected values from isolated runs of the same call",
    "C10": "interrupts, failed allocations and callback errors at sampled points of real library code",
    "C11": "real library code; an adversarial caller edits arguments and results between calls",
    "C12": "real library code; clock and entropy interposed in libc, other surroundings set per run",
    "C13": "interrupts at sampled points of real library code",
    "C14": "adversarial user functions and interrupts at sampled evaluations; recorded evaluation history",
    "C15": "adversarial user functions; recorded evaluation history",
    "C16": "one shared object under a line-level scheduler with interrupts; expected values from private objects",
    "C17": "one shared object under a line-level scheduler with interrupts; expected values from private objects",
    "C18": "shared inputs under a line-level scheduler with interrupts; expected values from isolated evaluations",
    "C19": "unit-aware calls under a line-level scheduler with interrupts; expected values from isolated and plain calls",
    "C20": "first uses under a line-level scheduler, failing and interrupted imports; expected values from a fresh process",
    "C21": "the worker pool of the threaded loop runs on simulated threads",
    "C22": "the random source is replaced by seeded adversarial streams",
}


def main():
    props = [json.loads(x) for x in open(HERE + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists("%s/dst/checks/%s.py" % (HERE, i.lower())):
            cmd = "/opt/venv/bin/python check.py " + i
            checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough",
                           "technique": "deterministic simulation with fault injection", "level": "exploration",
                           "level_note": NOTE.get(i, "seeded search; sampled, not exhaustive") + "; sampled, not exhaustive"})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy\"", "checks": checks, "not_applicable": na}
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
