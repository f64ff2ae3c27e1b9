import importlib
import os
import sys
import traceback

from mc import core


def main(argv):
    if not argv:
        print("usage: run <ID>|all [quick|thorough] | replay <file>")
        return 2
    if argv[0] == "replay":
        from mc import replay

        return replay.main(argv[1:])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    ctx = core.Ctx(pid, tier)
    try:
        mod = importlib.import_module("mc.checks.%s" % pid.lower())
        mod.run(ctx)
    except BaseException as e:  # the code under test does not even load, generate or answer
        ctx.violation(
            "check-aborted %s" % type(e).__name__,
            "the exploration could not be carried out on this tree:\n" + traceback.format_exc()[-4000:],
            {"property": pid},
        )
    return ctx.finish()


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.exit(main(sys.argv[1:]))
