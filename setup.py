#!/usr/bin/env python3
"""Checks that the tools the monitors need are there; builds nothing that a check does not rebuild."""
import shutil, subprocess, sys
need = ["/usr/bin/clang++-18", "/usr/bin/g++", "ninja", "ar", "valgrind", "node"]
missing = [t for t in need if shutil.which(t) is None]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
subprocess.run(["/usr/bin/clang++-18", "--version"], check=True)
