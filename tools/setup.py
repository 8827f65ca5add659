#!/usr/bin/env python3
"""Checks that the toolchain is there. Every check builds what it needs itself, from /repo's working tree."""
import shutil, sys
missing = [t for t in ("java", "g++", "python3") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ready")
