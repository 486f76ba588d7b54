#!/opt/venv/bin/python
"""Checks of pystruct by deterministic simulation.

  check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--wall S]
  check.py --replay FILE          exit 1 when the violation happens again
  check.py --setup                build what the checks need
"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv" \
        and not os.environ.get("DST_REEXEC"):
    os.environ["DST_REEXEC"] = "1"
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

from dst import boot  # noqa: E402

boot.ensure_env()
from dst import runner  # noqa: E402


def main(argv):
    if argv and argv[0] == "--worker":
        out = os.fdopen(os.dup(1), "w")
        os.dup2(2, 1)                 # nothing else may reach the pipe
        runner.run_range(argv[1], int(argv[2]), int(argv[3]), int(argv[4]),
                         int(argv[5]), float(argv[6]), out)
        return 0
    if argv and argv[0] == "--shrink":
        runner.shrink(argv[1], argv[2], float(argv[3]))
        return 0
    if argv and argv[0] == "--replay":
        return runner.replay(os.path.abspath(argv[1]))
    if argv and argv[0] == "--setup":
        boot.build_extensions()
        print("ready")
        return 0
    import argparse
    ap = argparse.ArgumentParser(description=__doc__)
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args(argv)
    return runner.check(a.prop.upper(), a.tier, a.seed, a.workers, a.runs,
                        a.wall)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
