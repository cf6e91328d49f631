#!/usr/bin/env python3
"""setup_cmd: builds every variant once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp
for v in ("plain", "asan", "msan"):
    print(v, vp.build(v))
