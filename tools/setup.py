#!/usr/bin/env python3
"""Nothing is built ahead of time (each check compiles against the tree it is given); this only looks for the tools."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
