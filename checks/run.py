#!/usr/bin/env python3
"""Runs the check of one property: run.py ID. VERIF_TIER=quick|thorough, VERIF_SEED=n."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
import vp

FAMILY = {"L01": "lewi", "L02": "lewi", "L03": "lewi", "L04": "lewi", "L05": "lewi", "L06": "lewi",
          "O01": "support", "O02": "support", "O03": "support", "B01": "barrier", "B02": "barrier",
          "D01": "drom", "D02": "drom", "D03": "drom", "T01": "talp", "T02": "talp", "T03": "talp", "T05": "talp", "T04": "talpout",
          "A01": "api", "A02": "api", "S01": "shm", "S02": "shm", "A03": "race",
          "M01": "mpi", "C01": "cli", "W01": "pages"}

if __name__ == "__main__":
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    vp.main(getattr(importlib.import_module(FAMILY[prop]), prop), prop)
