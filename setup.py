#!/usr/bin/env python3
"""Warms the build cache (idempotent). The checks build everything they need themselves."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core  # noqa: E402

ctx = core.Ctx('setup', 'quick', 1)
drv = os.path.join(core.HARNESS, 'drv')
for d in sorted(os.listdir(drv)):
    try:
        ctx.go_build('./drv/' + d)
    except core.Infra as e:
        print('setup: %s does not build on its own: %s' % (d, str(e)[-300:]))
subprocess.run(['java', '-version'], check=True)
