#!/usr/bin/env python3
"""nothing is prebuilt: every check regenerates its encoding from /repo"""
import shutil, sys, os
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc", "objcopy",
                       "re2c", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ok")
