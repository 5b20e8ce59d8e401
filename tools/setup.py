#!/usr/bin/env python3
"""Checks that the compiler the checks rely on is present and prepares the build directory."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence"): os.makedirs(os.path.join(V, d), exist_ok=True)
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
print("setup ok")
