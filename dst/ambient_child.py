"""Runs calls read from standard input in this process image, started with a hash seed, zone and locale of its own."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import boot, calls, runner


def main():
    boot.install_finder()
    calls.preload()
    calls.load_core()
    import warnings
    warnings.simplefilter("ignore")
    recs = json.load(sys.stdin)
    out = []
    for r in recs:
        o = runner.fork_call(lambda: calls.outcome(r), 60.0)
        out.append(list(o))
    sys.stdout.write("\nOUTCOMES " + json.dumps(out) + "\n")
    sys.stdout.flush()
    os._exit(0)


main()
