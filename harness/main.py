import importlib
import json
import os
import sys
import traceback

from harness import core


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ctx = core.Ctx(pid, tier, seed)
    rc = 2
    try:
        mod = importlib.import_module('harness.props.' + pid.lower())
        mod.run(ctx)
        ctx.write_evidence(0)
        print('OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs'
              % (pid, tier, ctx.states, ctx.traces, ctx.events,
                 core.time.time() - ctx.t0))
        rc = 0
    except core.Violation as v:
        d = os.path.join(core.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s.json' % pid)
        with open(fn, 'w') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, what=v.what,
                           payload=v.payload), f, indent=1)
        ctx.write_evidence(1)
        print(v.what[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, fn))
        rc = 1
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
