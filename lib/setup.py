"""Builds the drivers from /repo's tree so that the checks start warm, and parses the specifications."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import hbuild
for v, d, cli in (("asan", "hbsdrv", False), ("asan", "cache", False), ("sched", "shm", False), ("asan", "data", False)):
    print(hbuild.build(v, d, cli))
