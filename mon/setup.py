#!/usr/bin/env python3
"""setup_cmd: prebuild the common SUT variants (checks build whatever is missing themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core
for v in ('full', 'min'):
    print(v, core.build_sut(v))
