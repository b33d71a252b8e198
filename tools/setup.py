#!/usr/bin/env python3
# Nothing to install: every check builds itself from /repo's working tree. Verifies the toolchain is present.
import shutil, sys
missing = [t for t in ("clang++-18", "clang-18", "python3") if not shutil.which(t)]
if missing: print("missing tools:", missing); sys.exit(1)
print("ok")
