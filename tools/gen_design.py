#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the table of planted bugs filled in."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools/design.md")).read()
tab = subprocess.run([sys.executable, os.path.join(V, "tools/seed.py"), "table"], stdout=subprocess.PIPE, text=True, check=True).stdout
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@SEEDS@", tab.strip()))
