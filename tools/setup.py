#!/usr/bin/env python3
"""Nothing to install: checks that what the runs need is present."""
import shutil, sys
missing = [t for t in ("clang", "clang++", "gcc", "g++") if not shutil.which(t)]
if missing:
    print("missing: %s" % missing)
    sys.exit(1)
