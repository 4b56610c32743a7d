#!/usr/bin/env python3
"""Nothing needs to be built in advance: every check compiles what it needs. This only verifies the toolchain."""
import shutil
import sys

missing = [t for t in ("g++-14",) if not shutil.which(t)]
if missing:
    sys.exit(f"missing: {missing}")
