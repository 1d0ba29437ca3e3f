#!/usr/bin/env python3
"""setup_cmd: builds the harness (and the extractor) against /repo."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import concrete
concrete.build()
try:
    import deduce
    deduce.build()
except ImportError:
    pass
print("setup done")
