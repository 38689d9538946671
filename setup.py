#!/usr/bin/env python3
"""Checks that the toolchain the monitors need is there (every check builds its own binaries)."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "git") if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing)); sys.exit(1)
import buildlib
buildlib.config_dir()
print("library compiles and works: %s" % buildlib.control_ok())
