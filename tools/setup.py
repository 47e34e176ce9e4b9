#!/usr/bin/env python3
"""Nothing is prebuilt: checks build what they need. Verifies that the tools they use are present."""
import shutil, sys
missing = [t for t in ("clang++",) if not shutil.which(t)]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
