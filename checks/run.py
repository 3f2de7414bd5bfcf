#!/usr/bin/env python3
"""run.py CNN : run one check (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(os.path.dirname(here), "lib")]
sys.dont_write_bytecode = True
import vf
pid = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
m = importlib.import_module(pid.lower())
vf.main(pid, getattr(m, "LEVEL", "model_checking"), m.check)
