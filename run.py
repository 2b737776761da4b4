"""Check one property of QuakeMigrate:  python3-vt run.py C01   (VERIF_SEED, VERIF_TIER)
Replay a recorded violation:         python3-vt run.py --replay replays/FILE.json"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from qmv import driver  # noqa: E402

sys.exit(driver.main(sys.argv[1:]))
