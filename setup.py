#!/usr/bin/env python3
"""Offline setup: builds the simulator and all solutions the quick checks use."""
import sys
import build as B
from props import PROPS
sos = sorted({s for p in PROPS.values() for s in p.get("sos", [])})
try:
    print(B.build(sos))
except B.BuildError as e:
    print("setup: the code under test does not build:", str(e)[-2000:])
    sys.exit(1)
