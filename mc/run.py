import argparse, os, sys

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
ap.add_argument("--only")
ap.add_argument("--jobs", type=int)
a = ap.parse_args()
from mc import core

seed = int(os.environ.get("VERIF_SEED", "1") or 1)
only = None
if a.only:
    only = [int(x) for x in a.only.split(",")]
rc = core.run_property(a.prop, a.tier, seed, replay=a.replay, only=only, jobs=a.jobs)
sys.stdout.flush()
os._exit(rc)
