#!/usr/bin/env python3
"""setup_cmd: warms the Go build cache (the checks rebuild from /repo themselves)."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from checks import CHECKS

os.makedirs(check.BUILD, exist_ok=True)
os.makedirs(os.path.join(check.EVID, "replay"), exist_ok=True)
for pid, cfg in sorted(CHECKS.items()):
    s = tempfile.mkdtemp(prefix="setup-%s-" % pid, dir=check.BUILD)
    try:
        check.build(pid, cfg, s)
        print("built", pid)
    finally:
        shutil.rmtree(s, ignore_errors=True)
