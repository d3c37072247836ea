#!/usr/bin/env python3
"""check.py PROPERTY : decides one property of /repo's working tree. Tier from VERIF_TIER, seed from VERIF_SEED."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core, props  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = core.Ctx(prop, tier if tier in ('quick', 'thorough') else 'quick', seed)
    try:
        props.CHECKS[prop](ctx)
        return ctx.finish()
    except core.Infra as e:
        print('check error: %s' % e, file=sys.stderr)
        if ctx.violations:
            return ctx.finish()
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    sys.exit(main())
