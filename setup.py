#!/usr/bin/env python3
"""Checks that the toolchain is there; the checks build what they need themselves."""
import subprocess, os
for t in ('g++', 'clang++'):
    subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
print('ready')
