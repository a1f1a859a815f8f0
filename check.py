#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   (VERIF_SEED, VERIF_TIER from the environment)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import frame, props_store, props_commit, props_remote, props_par, props_schema
TABLE = dict(props_store.TABLE)
TABLE.update(props_commit.TABLE)
TABLE.update(props_remote.TABLE)
TABLE.update(props_par.TABLE)
TABLE.update(props_schema.TABLE)
if __name__ == "__main__":
    frame.main(sys.argv[1:], TABLE)
