"""Command-line entry: python3 -m sa <property> [--tier quick|thorough]."""

from __future__ import annotations

import importlib
import os
import sys
import time
import traceback

from sa.core import ROOT, Ctx, finish
from sa.model import AnalysisError, Program


def main(argv: list[str]) -> int:
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i : i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    status = 0
    program = None
    for prop in argv:
        started = time.time()
        try:
            if program is None:
                program = Program(ROOT)
            mod = importlib.import_module(f"sa.props.{prop.lower()}")
            ctx = Ctx(program, prop, tier)
            mod.run(ctx)
            status = max(status, finish(ctx, started, {"level": mod.LEVEL, "explanation": mod.EXPLANATION}, seed))
        except AnalysisError as exc:
            traceback.print_exc()
            print(f"{prop}: analysis couldn't complete: {exc}")
            return 2
    return status


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
