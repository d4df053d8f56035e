"""Common machinery of all checks: sharded generated-input search, oracles' verdicts, shrinking, replay, evidence.

A check module (checks/cNN.py) defines
    RULE         how cases are made and which count as non-trivial
    ASSUMPTIONS  list of strings
    TARGETS      list of Target(name, strategy, run, quick, thorough)
where strategy() gives a hypothesis strategy of JSON-able cases and run(case, rec) judges one case: it returns
normally if the property held, raises Violation if it did not. An exception that comes out of /repo code where the
check did not expect any is a violation too; one that comes out of the harness is an error of the check (exit 2).
"""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time as _time
import traceback

REAL_TIME = _time.time
REAL_PERF = _time.perf_counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold for this case. `sig` names the specific way in which it fails."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig or msg


class StopSearch(BaseException):
    """Time is up: stop generating; neither a violation nor an error."""


class Inconclusive(Exception):
    """The case could not be judged (for example the machine was too slow)."""


class Target:
    def __init__(self, name, strategy, run, quick, thorough=None, max_shards=None, enum=None, shrink_s=25):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 10
        self.max_shards = max_shards
        self.enum = enum  # optional function tier -> list of cases: complete enumeration, split over shards
        self.shrink_s = shrink_s


def require(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


def jkey(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=str)


class Rec:
    """Collects what one shard covered."""

    def __init__(self, known):
        self.known = known
        self.evaluations = 0
        self.inconclusive = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.known_hits = {}
        self._nontrivial = False
        self._interest = 0

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, flag=True, interest=0):
        """Mark the present case as non-trivial under the check's rule."""
        if flag:
            self._nontrivial = True
            self._interest = max(self._interest, interest)

    def begin(self):
        self.evaluations += 1
        self._nontrivial = False
        self._interest = 0

    def end(self, target, case):
        if self._nontrivial:
            k = hashlib.md5((target + jkey(case)).encode()).hexdigest()[:16]
            if k not in self.keys:
                self.keys.add(k)
                n = len(self.samples)
                if n < 6 or len(self.keys) % 97 == 0:
                    s = {"target": target, "case": case}
                    if len(jkey(s)) < 3000:
                        self.samples.append(s)
                        if len(self.samples) > 12:
                            self.samples.pop(6)


def classify(exc):
    """'violation' if an unexpected exception came out of the code under test, else 'harness'."""
    tb = traceback.extract_tb(exc.__traceback__)
    where = None
    for fr in tb:
        fn = os.path.realpath(fr.filename)
        if fn.startswith(os.path.realpath(REPO) + "/libensemble"):
            where = "repo"
        elif fn.startswith(HERE):
            where = "harness"
    return "violation" if where == "repo" else "harness"


def innermost_repo_frame(exc):
    out = None
    for fr in traceback.extract_tb(exc.__traceback__):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(os.path.realpath(REPO) + "/"):
            out = f"{os.path.relpath(fn, REPO)}:{fr.name}"
    return out


def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data if e.get("status") == "known" and e["property"] == pid]


def matches_known(known, sig):
    for e in known:
        if e["sig"] == sig:
            return e
    return None


def run_case(target, case, rec):
    """Runs one case. Returns None, or raises Violation / harness error."""
    rec.begin()
    try:
        target.run(case, rec)
    except Violation as v:
        e = matches_known(rec.known, v.sig)
        if e is not None:
            rec.known_hits[v.sig] = rec.known_hits.get(v.sig, 0) + 1
            rec.end(target.name, case)
            return
        raise
    except Inconclusive:
        rec.inconclusive += 1
        return
    except StopSearch:
        raise
    except Exception as exc:
        if type(exc).__module__.startswith("hypothesis"):
            raise
        if classify(exc) == "violation":
            sig = f"unexpected {type(exc).__name__} in {innermost_repo_frame(exc)}"
            e = matches_known(rec.known, sig)
            if e is not None:
                rec.known_hits[sig] = rec.known_hits.get(sig, 0) + 1
                return
            v = Violation(f"{sig}: {exc}\n{traceback.format_exc()[-3000:]}", sig)
            raise v from exc
        raise
    rec.end(target.name, case)


def run_target(target, n, seed, rec, deadline):
    """Generated-input search. Returns (violation_dict | None)."""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    best = {}
    state = {"first": None}

    def judge(case):
        now = REAL_PERF()
        if state["first"] is None and now > deadline:
            raise StopSearch()
        if state["first"] is not None and now > state["first"] + target.shrink_s:
            raise StopSearch()
        try:
            run_case(target, case, rec)
        except Violation as v:
            if state["first"] is None:
                state["first"] = REAL_PERF()
            size = len(jkey(case))
            if not best or size < best["size"]:
                best.update(size=size, case=json.loads(json.dumps(case)), msg=str(v), sig=v.sig)
            raise
        except StopSearch:
            raise
        except Exception:
            sys.stderr.write("case: " + jkey(case)[:5000] + "\n")
            raise

    if target.enum is not None:
        for case in n:  # here n is the list of cases of this shard
            try:
                judge(case)
            except Violation:
                break
            except StopSearch:
                break
        return dict(best) if best else None

    phases = [Phase.generate, Phase.shrink]
    test = given(target.strategy())(lambda case: judge(case))
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        report_multiple_bugs=False,
        phases=phases,
        suppress_health_check=list(HealthCheck),
        print_blob=False,
    )(test)
    test = hseed(seed)(test)
    try:
        test()
    except StopSearch:
        pass
    except Violation:
        pass
    except BaseException as e:
        if best and not isinstance(e, (KeyboardInterrupt, SystemExit)):
            # hypothesis wraps a failure that did not reproduce; the recorded case is judged again by the parent
            sys.stderr.write(f"[{target.name}] {type(e).__name__}: {str(e)[:300]}\n")
        else:
            raise
    return dict(best) if best else None


def shard_main(mod, pid, tier, seed, shard, nshards, out, only=None):
    known = load_known(pid)
    rec = Rec(known)
    viol = []
    t0 = REAL_PERF()
    cap = float(os.environ.get("VERIF_CAP_S", getattr(mod, "CAP_S", 240 if tier == "quick" else 780)))
    targets = [t for t in mod.TARGETS if only in (None, t.name)]
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    cwd = os.getcwd()
    os.chdir(scratch)
    per_target = {}
    try:
        if hasattr(mod, "shard_setup"):
            mod.shard_setup()
        for i, t in enumerate(targets):
            ns = min(nshards, t.max_shards or nshards)
            if shard % nshards >= ns:
                continue
            b0 = rec.evaluations
            k0 = len(rec.keys)
            deadline = t0 + cap * (i + 1) / len(targets)
            tt = REAL_PERF()
            if t.enum is not None:
                cases = t.enum(tier)
                v = run_target(t, cases[shard % ns :: ns], seed, rec, deadline)
            else:
                n = t.quick if tier == "quick" else t.thorough
                n = max(1, -(-n // ns))
                h = int(hashlib.md5(f"{seed}/{shard}/{t.name}".encode()).hexdigest()[:12], 16)
                v = run_target(t, n, h, rec, deadline)
            per_target[t.name] = [rec.evaluations - b0, len(rec.keys) - k0, round(REAL_PERF() - tt, 1)]
            if v:
                v["target"] = t.name
                viol.append(v)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    res = {
        "evaluations": rec.evaluations,
        "inconclusive": rec.inconclusive,
        "keys": sorted(rec.keys),
        "labels": rec.labels,
        "samples": rec.samples,
        "known_hits": rec.known_hits,
        "violations": viol,
        "per_target": per_target,
    }
    with open(out, "w") as f:
        json.dump(res, f, default=str)


def merge(results):
    ev = sum(r["evaluations"] for r in results)
    inc = sum(r["inconclusive"] for r in results)
    keys = set()
    labels, kh, pt, samples, viol = {}, {}, {}, [], []
    for r in results:
        keys.update(r["keys"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known_hits"].items():
            kh[k] = kh.get(k, 0) + v
        for k, v in r["per_target"].items():
            a = pt.setdefault(k, [0, 0, 0.0])
            a[0] += v[0]
            a[1] += v[1]
            a[2] = max(a[2], v[2])
        samples.extend(r["samples"][:3])
        viol.extend(r["violations"])
    return ev, inc, keys, labels, kh, pt, samples, viol


CLEANUPS = []  # called before a shard ends (it leaves with os._exit)


def run_cleanups():
    for f in CLEANUPS:
        try:
            f()
        except Exception:
            traceback.print_exc()


def main(argv):
    from vlib import boot

    boot.hypothesis_path()
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--out")
    ap.add_argument("--target")
    a = ap.parse_args(argv)
    pid = a.pid
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    if a.shard is not None or a.replay:
        boot.libensemble_path()
        mod = importlib.import_module(f"checks.{pid.lower()}")

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        t = [t for t in mod.TARGETS if t.name == rp["target"]][0]
        scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        os.chdir(scratch)
        rc = 0
        try:
            if hasattr(mod, "shard_setup"):
                mod.shard_setup()
            try:
                run_case(t, rp["case"], Rec([]))
                print("replay: the property held for this case")
            except Violation as v:
                print(str(v))
                print(f"VIOLATION property={pid} replay={os.path.abspath(a.replay)}")
                rc = 1
        finally:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)
        run_cleanups()
        sys.stdout.flush()
        os._exit(rc)

    if a.shard is not None:
        rc = 0
        try:
            shard_main(mod, pid, tier, seed, a.shard, a.nshards, a.out, a.target)
        except BaseException:
            traceback.print_exc()
            rc = 2
        run_cleanups()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)

    t0 = REAL_TIME()
    evdir = os.path.join(HERE, "evidence")
    rpdir = os.path.join(HERE, "replay")
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(rpdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"verif_par_{pid}_")
    procs = []
    hard = 860
    try:
        for s in range(a.nshards):
            out = os.path.join(tmp, f"o{s}.json")
            err = open(os.path.join(tmp, f"e{s}.txt"), "wb")
            cmd = [sys.executable, os.path.join(HERE, "run_check.py"), pid, "--tier", tier, "--shard", str(s)]
            cmd += ["--nshards", str(a.nshards), "--out", out] + (["--target", a.target] if a.target else [])
            p = subprocess.Popen(cmd, stdout=err, stderr=err, start_new_session=True, env=dict(os.environ, TMPDIR=tmp))
            procs.append((p, out, err))
        failed = []
        for s, (p, out, err) in enumerate(procs):
            try:
                p.wait(timeout=max(1, hard - (REAL_TIME() - t0)))
            except subprocess.TimeoutExpired:
                failed.append((s, "timeout"))
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            err.close()
            if not os.path.exists(out):
                failed.append((s, p.returncode))
        results = []
        for _, out, _ in procs:
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
        errtxt = ""
        for s, why in failed:
            with open(os.path.join(tmp, f"e{s}.txt"), errors="replace") as f:
                errtxt += f"--- shard {s} ({why})\n" + f.read()[-6000:]
    finally:
        for p, _, _ in procs:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        if os.environ.get("VERIF_KEEP"):
            shutil.copytree(tmp, os.environ["VERIF_KEEP"], dirs_exist_ok=True)
        shutil.rmtree(tmp, ignore_errors=True)

    ev, inc, keys, labels, kh, pt, samples, viol = merge(results)
    boot.libensemble_path()
    mod = importlib.import_module(f"checks.{pid.lower()}")
    by_sig = {}
    for v in viol:
        k = (v["target"], v["sig"])
        if k not in by_sig or v["size"] < by_sig[k]["size"]:
            by_sig[k] = v
    for (_, sig), v in sorted(by_sig.items()):
        h = hashlib.md5((v["target"] + sig).encode()).hexdigest()[:10]
        path = os.path.join(rpdir, f"{pid}_{h}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "target": v["target"], "case": v["case"], "sig": sig, "msg": v["msg"]}, f, indent=1)
        print(f"--- {pid} target={v['target']}\n{v['msg'][:3000]}\ncase: {jkey(v['case'])[:2000]}")
        print(f"replay with: python3 run_check.py {pid} --replay {path}")
        print(f"VIOLATION property={pid} replay={path}")
    for e in load_known(pid):
        print(f"KNOWN-FINDING: property={pid} {e['what']} (met {kh.get(e['sig'], 0)} times in this run)")

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:16],
            "classes": dict(sorted(labels.items())),
            "per_target_evaluations_nontrivial_seconds": pt,
            "inconclusive": inc,
            "known_findings_met": kh,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(REAL_TIME() - t0, 2),
        "violations": len(by_sig),
    }
    if not a.target:
        with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
    print(
        f"{pid} tier={tier} seed={seed}: {ev} cases, {len(keys)} distinct non-trivial, {inc} inconclusive, "
        f"{len(by_sig)} violations, {round(REAL_TIME() - t0, 1)} s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(pt), json.dumps(evidence["coverage"]["classes"], indent=1))
    if by_sig:
        sys.exit(1)
    if failed:
        sys.stderr.write(errtxt)
        print(f"ERROR: {len(failed)} shard(s) of {pid} failed: {failed}")
        sys.exit(2)
    if ev == 0:
        print("ERROR: nothing was evaluated")
        sys.exit(2)
    sys.exit(0)
