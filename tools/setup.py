#!/usr/bin/env python3
"""Builds every harness once (checks rebuild whenever /repo's sources differ)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
names = sorted(f[:-4] for f in os.listdir(core.HARN) if f.startswith(("h_", "p_")) and f.endswith(".cpp"))
try:
    core.build(names)
except core.CheckError as e:
    print("setup: a harness does not build; its checks will say so\n%s" % e)
print("built", names)
