#!/usr/bin/env python3
"""offline sanity check of the tools the checks need; builds nothing that a check relies on"""
import shutil, os, sys, subprocess
ok = all(shutil.which(x) for x in ("g++", "python3-vt", "cvc5")) and os.path.exists("/usr/lib/llvm-18/bin/clang++")
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "build"), exist_ok=True)
subprocess.run(["python3-vt", "-c", "import z3"], check=True)
sys.exit(0 if ok else 1)
