#!/usr/bin/env python3
"""setup_cmd: the checks build everything themselves from /repo; this only confirms that the tools they need are there."""
import shutil, sys
missing = [t for t in ("cmake", "ninja", "g++", "clang++") if not shutil.which(t)]
print("missing tools: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
