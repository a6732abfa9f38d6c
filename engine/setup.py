#!/usr/bin/env python3
"""Nothing has to be built: verifies that the compiler and the sources are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
subprocess.check_call(['clang++', '--version'])
build.compile_all(build.engine_sources() + build.fut_sources())
print('ready')
