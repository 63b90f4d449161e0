#!/opt/venv/bin/python
"""usage: run.py <property id> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = os.path.abspath(a.replay) if a.replay else None
    import verif_env

    verif_env.setup(stubs=True)
    try:
        from pbt import runner

        module = importlib.import_module(f"checks.{a.property.lower()}")
        return runner.main_for(module, a.property, a.tier, seed, replay)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={a.property}: the check could not run")
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
