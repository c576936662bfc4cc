#!/usr/bin/env python3
"""Checks that the tools the analysis needs are present and regenerates the
generated files (which come out as committed)."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import build
for t in (build.CLANG, build.OPT, build.LINK):
    print(t())
subprocess.check_call([sys.executable, os.path.join(HERE, 'tools', 'gen_fort.py')])
subprocess.check_call([sys.executable, os.path.join(HERE, 'tools', 'gen_manifest.py')])
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
