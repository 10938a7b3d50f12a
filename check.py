#!/usr/bin/env python3
"""check.py <property>: decides one property (tier and seed from VERIF_TIER, VERIF_SEED)."""
import os, sys, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.dont_write_bytecode = True
import vc
from checks import TABLE


def main():
    prop = sys.argv[1]
    ctx = vc.Ctx(prop)
    try:
        TABLE[prop](ctx)
    except Exception:
        traceback.print_exc()
        if not ctx.violations: return 2
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
