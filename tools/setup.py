"""checks that the tools the machinery needs are present; everything else is built by each check from /repo"""
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build

missing = [x for x in ("kissat", "z3-new", "gcc", "objcopy", "cargo", "rustc") if not shutil.which(x)]
if not build.llvm_tool("llc"):
    missing.append("llc")
if missing:
    sys.exit("missing tools: " + " ".join(missing))
print("tools present")
