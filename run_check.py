#!/usr/bin/env python3
"""Entry point of every check: run_check.py <PROPERTY> [--tier quick|thorough]
                                            [--replay FILE] [--prop NAME]

Exit 0: property held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": broken. Exit 2: the harness failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "JAX_PLATFORMS": "cpu",
    "MPLBACKEND": "Agg",
    "PYTHONWARNINGS": "ignore",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    # cheap compilation: correctness of the compiled code is unaffected
    "XLA_FLAGS": (
        "--xla_backend_optimization_level=0 "
        "--xla_llvm_disable_expensive_passes=true "
        "--xla_cpu_multi_thread_eigen=false"
    ),
    "PYTHONPATH": os.pathsep.join([os.environ.get("VERIF_REPO", "/repo"), HERE]),
    "VERIF_BOOTED": "1",
}

if os.environ.get("VERIF_BOOTED") != "1":
    env = dict(os.environ)
    env.update(ENV)
    os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.path.insert(0, HERE)

from vlib import boot  # noqa: E402

boot.ensure_hypothesis()

from vlib import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
