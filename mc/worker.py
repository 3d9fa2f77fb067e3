"""Runs the cases it is given on the real code and answers with the results."""

import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    prop, rfd, wfd = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    warnings.simplefilter("ignore")
    import logging

    for n in ("FFC", "UFL", "UFL_LEGACY", "dijitso"):
        logging.getLogger(n).setLevel(logging.CRITICAL)
    import fenics
    import festim

    repo = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
    assert os.path.realpath(festim.__file__).startswith(repo + os.sep), festim.__file__
    fenics.set_log_level(50)
    try:
        from mc import fastjit

        fastjit.install()
    except Exception:
        pass  # only an optimisation
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    inp, out = os.fdopen(rfd, "r"), os.fdopen(wfd, "w")
    n = 0
    for line in inp:
        case = json.loads(line)
        n += 1
        d = os.path.join(os.environ["MC_WORKDIR"], f"c{n}")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        try:
            res = mod.run(case)
        except BaseException as e:  # an unexpected error is a violation
            res = {
                "violations": [
                    f"unexpected {type(e).__name__}: {str(e)[:300]} "
                    + "".join(traceback.format_tb(e.__traceback__)[-2:])[-400:]
                ]
            }
        os.chdir(os.environ["MC_WORKDIR"])
        out.write(json.dumps(res, default=float) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
