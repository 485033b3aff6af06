#!/usr/bin/env python3
# Nothing has to survive setup: every check builds what it needs. This proves that the tools are there.
import shutil, sys
missing = [t for t in ("cmake", "ninja", "g++", "clang++", "loongarch64-linux-gnu-gcc-14") if not shutil.which(t)]
if missing: sys.exit("missing tools: " + ", ".join(missing))
print("setup ok")
