#!/usr/bin/env python3
"""Checks that the tools the framework needs are present (every check builds what it needs itself)."""
import shutil, sys
missing = [t for t in ("clang++-18", "g++", "llvm-config-18") if not shutil.which(t)]
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
