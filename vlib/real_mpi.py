"""The program every MPI rank of an MPIServer runs."""
import faulthandler
import json
import os
import pickle
import sys
import time


def main():
    from mpi4py import MPI

    from vlib import boot

    boot.hypothesis_path()
    boot.libensemble_path()
    from vlib import real

    real.die_with_parent()
    import libensemble.libE  # noqa: F401

    comm = MPI.COMM_WORLD
    home = sys.argv[1]
    r = comm.Get_rank()
    proto = os.dup(1)
    os.dup2(2, 1)
    comm.Barrier()
    if r == 0:
        os.write(proto, b"READY\n")
    n = 0
    while True:
        n += 1
        path = f"req{n}.json"
        path = os.path.join(home, path)
        while not os.path.exists(path):  # (ranks waiting inside MPI would spin)
            time.sleep(0.003)
        with open(path) as f:
            req = json.load(f)
        os.chdir(req["cwd"])
        faulthandler.dump_traceback_later(req.get("limit", 60) * 0.7)
        if req.get("func"):
            out = real.load(req["ref"])(req["case"], comm, req["cwd"])
        else:
            out = real.call_libE(req["ref"], req["case"], "mpi", comm.Get_size() - 1, rank=r)
        comm.Barrier()
        faulthandler.cancel_dump_traceback_later()
        if r == 0:
            with open(req["res"] + ".tmp", "wb") as f:
                pickle.dump(out, f)
            os.rename(req["res"] + ".tmp", req["res"])
            os.write(proto, b"DONE\n")


if __name__ == "__main__":
    main()
