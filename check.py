#!/opt/venv/bin/python
"""check.py <property> [--thorough] [--seed N] [--runs N] [--replay FILE]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    from dst import boot
    over = {}
    if os.environ.get("DST_NORMAL") != "1" and sys.argv[1:2] == ["C12"]:
        from dst import ambient
        over["LD_PRELOAD"] = ambient.shim()
    boot.normalise_process([os.path.abspath(__file__)] + sys.argv[1:], over)
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--dump", action="store_true", help="print every run's result digest (determinism test)")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("dst.checks.%s" % a.property.lower())
    from dst import runner
    if a.dump:
        return runner.dump(mod, tier, seed, a.runs or 100)
    return runner.main(mod, tier, seed, a.runs, a.replay, write_evidence=not a.no_evidence)


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
