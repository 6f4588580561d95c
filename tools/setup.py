#!/usr/bin/env python3
"""Nothing is prebuilt (each check compiles its harness from /repo's current tree); verify the tools are present."""
import shutil, subprocess, sys, os
for t in ("g++", "java"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
p = "/opt/veriftools/tla/tla2tools.jar"
if not os.path.exists(p):
    sys.exit(p + " is missing")
print("ok")
