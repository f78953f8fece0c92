#!/usr/bin/env python3
"""replay.py FILE: runs a replay file against /repo's current tree. 1: same violation, 0: none, 3: another one."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, check
prog = common.build()
sys.exit(subprocess.call([prog, "replay", sys.argv[1]], env=dict(os.environ, SIM_KNOWN=",".join(f[1] for f in check.known_findings()))))
