#!/usr/bin/env python3
"""setup_cmd: builds the generator under simulation."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build
print(build.generator())
