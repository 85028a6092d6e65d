#!/usr/bin/env python3
"""setup_cmd: checks that the reference models reproduce their published vectors (nothing is left behind)."""
import os
import subprocess
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'lib'))
import build as B
env = B.envvars({'PYTHONPATH': os.path.join(H, 'lib')})
sys.exit(subprocess.run(['python', os.path.join(H, 'lib', 'models_selftest.py')], env=env).returncode)
