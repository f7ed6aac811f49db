#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's working tree.

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken;
exit 2: the check itself failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

AREA = dict(C10="area_prf", C11="area_prf", C08="area_table", C09="area_table", C12="area_values", C16="area_values", C17="area_values", C18="area_values",
            C13="area_chrono", C14="area_chrono", C15="area_poly",
            C01="area_proto", C02="area_proto", C03="area_proto", C04="area_proto", C05="area_proto", C06="area_proto", C07="area_proto", C19="area_proto", C20="area_worlds")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = lib.Ctx(pid, tier, seed)
    try:
        level, assumptions = getattr(importlib.import_module(AREA[pid]), pid)(ctx)
    except Exception:
        if not ctx.violations:
            traceback.print_exc()
            print("ERROR: the check of %s could not be completed" % pid)
            return 2
        level, assumptions = "model_checking", ["the check stopped after the violation"]
    ctx.finish(level, assumptions)
    for path, what in ctx.violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + what)
    print("%s %s: %d traces, %d events validated, %d states, %.0f s, %d violations" % (
        pid, tier, ctx.traces, ctx.events, ctx.states, __import__("time").time() - ctx.t0, len(ctx.violations)))
    return 1 if ctx.violations else 0


sys.exit(main())
