#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property for /repo's working tree"""
import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    import props
    fn, level = props.CHECKS[a.prop]
    ctx = vlib.Ctx(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed)
    rc = 0
    try:
        fn(ctx)
        vlib.write_evidence(ctx, level)
        if ctx.violations:
            v = ctx.violations[0]
            path = os.path.join(ctx.replays, "%s.json" % a.prop)
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("rejected: %s, event %s: %s" % (v["what"], v.get("event_index"), json.dumps(v.get("event"))[:500]))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            rc = 1
        else:
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (
                a.prop, ctx.cov["states"], ctx.cov["traces_validated_against_impl"], __import__("time").time() - ctx.t0))
    except vlib.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (a.prop, e), file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not a.keep:
            ctx.done()
    return rc


if __name__ == "__main__":
    sys.exit(main())
