"""A TCP worker: real_tcp.py CASE_FILE IP PORT AUTHKEY WORKER_ID"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from vlib import real  # noqa: E402


def main():
    path, ip, port, key, wid = sys.argv[1:]
    with open(path) as f:
        req = json.load(f)
    real.fresh_process_state()
    from libensemble.libE import libE

    s, g, e, p, a, ls, h = real.load(req["ref"])(req["case"])
    ls = dict(ls, comms="tcp", ip=ip, port=int(port), authkey=key, workerID=int(wid), nworkers=req["nw"])
    ls.setdefault("save_H_and_persis_on_abort", False)
    libE(s, g, e, p, a, ls, h)


main()
