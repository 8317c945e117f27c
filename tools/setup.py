#!/usr/bin/env python3
"""setup_cmd: builds the library and all harnesses once (checks rebuild on change)."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner
from concurrent.futures import ThreadPoolExecutor
pids = sorted(os.path.basename(p)[:-4].upper() for p in glob.glob(runner.VERIF + '/engine/c[0-9]*.cpp'))
runner.harness(pids[0])
with ThreadPoolExecutor(5) as ex:
    list(ex.map(runner.harness, pids))
