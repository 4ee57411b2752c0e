#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's working tree (VERIF_TIER, VERIF_SEED)."""
import sys, traceback
import vlib, checks


def main():
    prop = sys.argv[1]
    fn = getattr(checks, prop)
    run = vlib.Run(prop)
    try:
        fn(run)
        return run.finish(getattr(fn, "assumptions", ()))
    except vlib.MachineryError as e:
        if run.violations:  # what was seen before still counts
            return run.finish()
        print("ERROR %s: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.cleanup()


if __name__ == "__main__":
    sys.exit(main())
