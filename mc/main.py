"""Entry point: python -m mc.main P01 [--tier quick|thorough] [--replay FILE]."""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--replay")
    options = parser.parse_args()
    base_dir = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    base = tempfile.mkdtemp(prefix=f"dtmc-{options.property}-", dir=base_dir)
    os.environ["VERIF_SCRATCH_BASE"] = base
    from mc import core
    try:
        seed = int(os.environ.get("VERIF_SEED") or 0)
    except ValueError:
        seed = 0
    try:
        module = importlib.import_module(f"mc.props.{options.property.lower()}")
        import dtformats
        where = os.path.dirname(os.path.abspath(dtformats.__file__))
        if where != os.path.join(core.REPO, "dtformats"):
            sys.stderr.write(f"dtformats imported from {where}\n")
            return 2
        run = core.Run(options.property, options.tier, abs(seed))
        if options.replay:
            with open(options.replay) as f:
                recorded = json.load(f)
            print(json.dumps(recorded, indent=1)[:4000])
            run.replay_case = recorded
        module.main(run)
        return run.finish()
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
