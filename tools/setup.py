#!/usr/bin/env python3
"""Offline sanity of the toolchain: every check builds its own harness, nothing has to be kept."""
import shutil, sys
for t in ("g++", "mpicxx", "python3"):
    if not shutil.which(t): print("missing", t); sys.exit(1)
print("setup ok")
