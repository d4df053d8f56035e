#!/usr/bin/env python3
"""Entry point of every check:  run_check.py C01 [--tier quick|thorough] [--replay FILE]

Re-executes itself under the interpreter that has libensemble's dependencies, with a pinned
environment, so that a run is a function of the code in /repo and VERIF_SEED alone.
"""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "OMPI_ALLOW_RUN_AS_ROOT": "1",
    "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_pml": "ob1",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_plm_rsh_agent": "/bin/false",
    "OMPI_MCA_oob_tcp_if_include": "lo",
}

if os.environ.get("_VERIF_CHILD") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env["_VERIF_CHILD"] = "1"
    for k in [k for k in env if k.startswith(("SLURM_", "LSB_", "COBALT_", "PBS_", "LIBE_", "OMPI_COMM", "PMI_"))]:
        env.pop(k)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vlib import core  # noqa: E402

if __name__ == "__main__":
    core.main(sys.argv[1:])
