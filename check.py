#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree (see DESIGN.md).  Exit 0: held on everything explored;
1: violated (VIOLATION line); 2: the check itself could not run."""
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.setrecursionlimit(10000)

import core  # noqa: E402
import props  # noqa: E402

ASSUME = ['the encoder in lib/ is trusted only as a producer of inputs: what a stream means is decided by spec/Decoder.tla or by comparison',
          'x86-64 host; SIMD paths are those this CPU offers']
RULE = ('streams and call histories are behaviours of spec/Stream.tla, spec/ApiGen.tla (TLC simulation, seeded); a case is one decode or header '
        'read of the real decoder judged by a TLA+ module; distinct: different stream bytes, call or output colourspace')

# how much of what a check generates: about 40 s each
SIZE = {'C06': 1.8, 'C07': 3, 'C08': 4, 'C09': 4, 'C10': 2, 'C12': 2.5, 'C15': 3, 'C18': 2.2, 'C19': 2.2, 'C20': 1.8, 'C21': 3, 'C22': 2.5}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = core.Ctx(prop, tier, seed)
    rounds = 1 if tier == 'quick' else int(os.environ.get('VERIF_ROUNDS', '12'))
    limit = float(os.environ.get('VERIF_SECONDS', '3000'))
    try:
        for r in range(rounds):
            ctx.round = r
            try:
                props.CHECKS[prop](ctx, SIZE.get(prop, 1.0) * (1.0 if tier == 'quick' else 1.5))
            except core.Stop:
                break
            if ctx.viol or time.time() - ctx.t0 > limit:
                break
        ctx.notes['rounds'] = ctx.round + 1
    except Exception:
        traceback.print_exc()
        if not ctx.viol:
            print(f'[{prop}] the check could not run', file=sys.stderr)
            return 2
    return core.finish(ctx, 'model_checking', RULE, ASSUME)


sys.exit(main())
