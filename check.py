#!/usr/bin/env python
"""check.py <ID> [--tier quick|thorough] [-v] [--only name,...] | check.py --replay FILE"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("ML4GW_REPO", "/repo"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings  # noqa: E402

warnings.filterwarnings("ignore")
import torch  # noqa: E402

torch.set_num_threads(1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    from symx import driver

    if a.setup:
        # nothing is compiled: check that the solver and the code under test load
        import z3

        import ml4gw  # noqa: F401

        x = z3.Int("x")
        s = z3.Solver()
        s.add(x > 1, x < 2)
        assert s.check() == z3.unsat
        print("z3", z3.get_version_string(), "torch", torch.__version__)
        return 0
    if a.replay:
        return driver.replay_file(a.replay)
    return driver.run_property(
        a.pid, f"checks.{a.pid.lower()}", a.tier, a.seed, a.only.split(",") if a.only else None, a.v
    )


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
