"""Records traces: drv.py SUITE --out F [--shard i/n] [--cases F] (VERIF_SEED, VERIF_TIER)."""
import argparse
import importlib
import os
import sys

ap = argparse.ArgumentParser()
ap.add_argument("suite")
ap.add_argument("--out", required=True)
ap.add_argument("--shard", default="0/1")
ap.add_argument("--cases", default=None)
a = ap.parse_args()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
R = common.Rec()
i, n = (int(v) for v in a.shard.split("/"))
seed = os.environ.get("VERIF_SEED", "1")
tier = os.environ.get("VERIF_TIER", "quick")
mod, name = a.suite.split(":")
ok = False
with common.guard(R, "import lsst.skymap"):
    import lsst.skymap  # noqa: F401
    import lsst.skymap.ringsSkyMap, lsst.skymap.healpixSkyMap, lsst.skymap.packers  # noqa: F401,E401
    ok = True
if ok:
    m = importlib.import_module("scen_" + mod)
    units = getattr(m, "suite_" + name)(seed, tier, a.cases)
    for k, (label, fn, args) in enumerate(units):
        if k % n != i:
            continue
        R.ctx = label
        with common.guard(R, label, limit=300):
            fn(R, common.rng_for(seed, a.suite, label), *args)
R.write(a.out)
print("events", len(R.ev))
