#!/usr/bin/env python3
"""usage: run.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED)"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import vp
    if tier != "quick":
        vp.BUDGET[0] = 1e9
    m = importlib.import_module(prop.lower())
    obs = m.obligations(tier)
    flt = os.environ.get("VP_ONLY")
    floor = m.FLOOR
    if flt:     # development aid
        obs = [o for o in obs if flt in o.id]
        floor = 0
    extra = m.extra(tier, seed) if hasattr(m, "extra") else []
    return vp.decide(prop, obs, m.HDR, tier, seed, floor, extra, getattr(m, "BATCH", None), m.TITLE)


sys.exit(main())
