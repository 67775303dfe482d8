#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source (static analysis, see DESIGN.md)"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    from sa import harness, limits, mir
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    mod = importlib.import_module('sa.checks.' + pid.lower())
    try:
        ctx = harness.Ctx(pid, tier, seed)
    except mir.AnalysisError as e:
        print('%s: /repo could not be analysed: %s' % (pid, e))
        return 2
    limits.run(mod, ctx)
    return harness.finish(ctx, mod)


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
