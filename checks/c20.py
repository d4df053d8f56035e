"""C20: conversions between record lists and arrays keep every value in its field."""
import copy
import math
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import ens, real
from vlib.core import Target, Violation, require
from vlib.judge import clean_run

TECHNIQUE = "property-based testing: round trips of generated records and arrays through the conversions, and whole runs with standard-style generators that log what they are given"
RULE = (
    "Generated record lists (floats, integers, flags, texts and bytes of differing width, vectors, ids that some records lack; a "
    "field may hold values of differing type) and structured arrays (all scalar types, vectors, texts), with mappings of none, one "
    "or several names to vector fields, with and without a given dtype, are converted there and back: every record has the same "
    "keys and values, every array the same columns, unmapped fields pass through, inputs are left alone. Generators written for "
    "arrays are driven through the record interface. The gest-api simulator wrapper calls the simulator once per point with that "
    "point's values. Whole runs with a standard-style generator (fields derived from the VOCS, spelled out, or mapped to a vector; "
    "ids or none; H0; synchronous or asynchronous return; generator on a worker or on the manager): it must be given each point it "
    "suggested once, with the values it suggested and the results computed for them. Persistent generator functions behind the "
    "record interface must see the same. Non-trivial: more than one record, and a mapping or fields of several types."
)
ASSUMPTIONS = [
    "all records of a list have the same keys, except _id, which records made elsewhere lack",
    "texts and bytes do not end in NUL characters, which NumPy does not keep",
    "mapped names are numeric in record lists and of one type in arrays",
]


def shard_setup():
    ens.quiet_logs()


def misc():
    import libensemble.utils.misc as m

    return m


# ------------------------------------------------------------------ values

NUM = ("float", "int", "mixed", "np32", "npf", "npi")
KINDS = NUM + ("bool", "text", "bytes", "vec", "ivec", "list")


def value(kind, v, i):
    v = int(v)
    f = v / 7.0
    if kind == "float":
        return [f, float("inf"), float("nan"), -0.0][0 if v % 11 else v // 11 % 4]
    if kind == "int":
        return v
    if kind == "mixed":
        return v if (v + i) % 2 else f
    if kind == "np32":
        return np.float32(f)
    if kind == "npf":
        return np.float64(f)
    if kind == "npi":
        return np.int64(v)
    if kind == "bool":
        return bool(v % 2)
    if kind == "text":
        return "aé☃xyzklm"[: abs(v) % 9] + ("" if v % 3 else "0")
    if kind == "bytes":
        return b"abcdefgh"[: abs(v) % 8]
    if kind == "vec":
        return np.array([f, v, -f])
    if kind == "ivec":
        return np.array([v, v + 1])
    if kind == "list":
        return [f, v * 2.0]
    raise KeyError(kind)


def same_value(a, b):
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(same_value(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a):
        return math.isnan(b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return type(a) is type(b) and a == b
    if isinstance(a, complex) or isinstance(b, complex):
        return a == b
    return a == b and (a != 0 or math.copysign(1, a) == math.copysign(1, b) or type(a) is not type(b))


def same_records(got, want, what):
    require(len(got) == len(want), lambda: f"{what}: {len(got)} records instead of {len(want)}", "number of records")
    for i, (g, w) in enumerate(zip(got, want)):
        require(set(g) == set(w), lambda: f"{what}: record {i} has keys {sorted(g)} instead of {sorted(w)}", "keys of a record")
        for k in w:
            require(same_value(g[k], w[k]), lambda: f"{what}: record {i} has {k} = {g[k]!r} instead of {w[k]!r}", "value of a record")


def snapshot(recs):
    return copy.deepcopy(recs)


# ------------------------------------------------------------------ records -> array -> records

NAMES = ["a", "b", "core", "edge", "x0", "x1", "x2", "energy", "z", "name", "x", "f"]


def records_strategy():
    return st.fixed_dictionaries(
        {
            "fields": st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(KINDS)), min_size=1, max_size=7, unique_by=lambda t: t[0]),
            "vals": st.lists(st.integers(-120, 120), min_size=1, max_size=12),
            "n": st.integers(0, 6),
            "map": st.lists(st.integers(1, 3), max_size=3),
            "names": st.permutations(["x", "y", "f", "grad"]),
            "self": st.booleans(),
            "id": st.sampled_from(["none", "all", "some", "mapped", "mapped_some"]),
            "dtype": st.sampled_from(["none", "flat", "mapped"]),
            "order": st.integers(0, 5),
        }
    )


def fixed_dtype(name, kind):
    return {
        "float": (name, float), "int": (name, int), "mixed": (name, float), "np32": (name, np.float32), "npf": (name, float), "npi": (name, np.int64),
        "bool": (name, bool), "text": (name, "U12"), "bytes": (name, "S9"), "vec": (name, float, (3,)), "ivec": (name, int, (2,)), "list": (name, float, (2,)),
    }[kind]


def make_mapping(case, fields):
    """Partition some numeric names into mapped vector fields."""
    num = [n for n, k in fields if k in NUM]
    taken = {n for n, _ in fields}
    mapping = {}
    for size, name in zip(case["map"], case["names"]):
        group, num = num[:size], num[size:]
        if not group:
            break
        if case["self"] and len(group) == 1 and name != group[0]:
            name = group[0]
        if name in taken and name not in group:  # would collide with an unmapped field
            continue
        mapping[name] = group
    return mapping


def records(case, rec):
    m = misc()
    fields = case["fields"]
    mapping = make_mapping(case, fields)
    vals = case["vals"]
    recs = []
    for i in range(case["n"]):
        r = {n: value(k, vals[(i * len(fields) + j) % len(vals)] + i, i) for j, (n, k) in enumerate(fields)}
        if case["id"] in ("all", "mapped") or (case["id"] in ("some", "mapped_some") and (vals[0] + i) % 3):
            r["_id"] = i + 3 if i else 0
        recs.append(r)
    if case["id"].startswith("mapped"):
        mapping["sim_id"] = ["_id"]
    kinds = dict(fields)
    mapped = {s for g in mapping.values() for s in g}
    dtype = None
    if case["dtype"] != "none":
        dtype = [fixed_dtype(n, k) for n, k in fields if n not in mapped]
        if case["id"] in ("all", "some"):
            dtype.append(("_id", int))
        if case["dtype"] == "mapped":
            for name, g in mapping.items():
                if name == "sim_id" and not any("_id" in r for r in recs):
                    continue
                base = int if name == "sim_id" else float
                dtype.append((name, base, (len(g),)) if len(g) > 1 or (case["order"] == 4 and name != "sim_id") else (name, base))
        if not dtype:
            dtype = None
        else:
            k = case["order"] % len(dtype)
            dtype = dtype[k:] + dtype[:k]
    before, bd, bm = snapshot(recs), copy.deepcopy(dtype), copy.deepcopy(mapping)
    what = f"records {recs} with mapping {mapping}, dtype {dtype}"
    try:
        A = m.list_dicts_to_np(recs, dtype=dtype, mapping=mapping)
    except Exception as e:
        raise Violation(f"list_dicts_to_np fails on {what}: {e!r}", f"conversion fails: {type(e).__name__}")
    require(isinstance(A, np.ndarray) and len(A) == len(recs), lambda: f"{what}: {A!r}", "number of rows")
    require(repr(bd) == repr(dtype) and bm == mapping, lambda: f"{what}: the given dtype or mapping became {dtype} {mapping}", "argument changed")
    same_records(recs, before, "the list that was converted")
    if recs:
        some_id = any("_id" in r for r in recs)
        for n, k in fields:
            if n in mapped:
                continue
            require(n in A.dtype.names, lambda: f"{what}: no field {n} in {A.dtype}", "field missing")
            for i, r in enumerate(recs):
                require(same_value(A[n][i], r[n]), lambda: f"{what}: row {i} has {n} = {A[n][i]!r} instead of {r[n]!r}", "value in the array")
        for name, g in mapping.items():
            if name == "sim_id":
                if some_id:
                    want = [r.get("_id", -1) for r in recs]
                    require(A["sim_id"].tolist() == want, lambda: f"{what}: sim_id {A['sim_id']} instead of {want}", "ids in the array")
                continue
            require(name in A.dtype.names, lambda: f"{what}: no field {name} in {A.dtype}", "field missing")
            for i, r in enumerate(recs):
                row = np.ravel(A[name][i])
                require(len(row) == len(g), lambda: f"{what}: {name} has {len(row)} entries", "mapped field")
                for v, s in zip(row, g):
                    require(same_value(float(v), float(r[s])), lambda: f"{what}: row {i} has {name} = {row} but {s} is {r[s]!r}", "value in a mapped field")
        keep = A.copy()
        try:
            back = m.np_to_list_dicts(A, mapping={k: v for k, v in mapping.items() if k in A.dtype.names})
        except Exception as e:
            raise Violation(f"np_to_list_dicts fails on {A} with {mapping}: {e!r}", f"conversion back fails: {type(e).__name__}")
        require(A.dtype == keep.dtype and repr(A) == repr(keep), "np_to_list_dicts changed the array", "argument changed")
        want = before
        same_records(back, want, f"there and back of {what}")
        for r in back:
            for n in mapped & set(r):
                require(np.ndim(r[n]) == 0, lambda: f"{what}: {n} comes back as {r[n]!r}, not a scalar", "scalar comes back as array")
    for k in kinds.values():
        rec.label(f"{k} field")
    if mapping:
        rec.label("mapping")
    if dtype is not None:
        rec.label("dtype given")
    if case["id"] in ("some", "mapped_some"):
        rec.label("some records without id")
    rec.nontrivial(len(recs) > 1 and (bool(mapping) or len(set(kinds.values())) > 1), interest=len(recs) * len(fields))


# ------------------------------------------------------------------ arrays

BASES = ["f8", "f4", "i8", "i4", "bool", "U5", "U1", "S4", "u2", "c16"]


def arrays_strategy():
    return st.fixed_dictionaries(
        {
            "fields": st.lists(
                st.tuples(st.sampled_from(NAMES + ["sim_id", "_id"]), st.sampled_from(BASES), st.sampled_from([0, 0, 0, 1, 2, 3, 12]), st.booleans()),
                min_size=1, max_size=6, unique_by=lambda t: t[0],
            ),
            "n": st.integers(0, 5),
            "vals": st.lists(st.integers(-60, 60), min_size=1, max_size=15),
            "shape2": st.booleans(),
        }
    )


def arr_value(base, v):
    if base[0] == "U":
        return "aé☃xyzklm"[: abs(v) % (int(base[1:]) + 1)]
    if base[0] == "S":
        return b"abcdefgh"[: abs(v) % (int(base[1:]) + 1)]
    if base == "bool":
        return bool(v % 2)
    if base[0] == "u":
        return abs(v) * 100
    if base[0] == "i":
        return v * 100003
    if base[0] == "c":
        return complex(v / 3, -v)
    return v / 7.0


def make_array(case):
    dt, mapping = [], {}
    for n, base, size, mp in case["fields"]:
        if n in ("sim_id", "_id"):
            base, size, mp = "i8", 0, False
        shape = (2, 2) if case["shape2"] and size == 12 else (size,)
        dt.append((n, base, shape) if size else (n, base))
        if mp and len(shape) == 1 and n not in ("sim_id", "_id"):
            mapping[n] = [f"{n}_{i}" for i in range(size or 1)]
    A = np.zeros(case["n"], dtype=dt)
    c = 0
    for n in A.dtype.names:
        flat = A[n].reshape(-1)
        base = A[n].dtype.str[1:] if A[n].dtype != bool else "bool"
        if base[0] == "U":
            base = f"U{A[n].dtype.itemsize // 4}"
        for i in range(len(flat)):
            flat[i] = arr_value(base, case["vals"][c % len(case["vals"])] + c)
            c += 1
        if n == "_id":
            flat[:] = np.where(flat < 0, -1, flat)
    return A, mapping, dt


def same_col(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and (a.tobytes() == b.tobytes() or bool(np.all((a == b) | ((a != a) & (b != b)))))


def arrays(case, rec):
    m = misc()
    A, mapping, dt = make_array(case)
    what = f"array {A.dtype} {A} with mapping {mapping}"
    keep, km = A.copy(), copy.deepcopy(mapping)
    # through records
    try:
        recs = m.np_to_list_dicts(A, mapping=mapping)
        require(len(recs) == len(A), lambda: f"{what}: {len(recs)} records", "number of records")
        for i, r in enumerate(recs):
            want = {}
            for n in A.dtype.names:
                if n in mapping:
                    want.update(zip(mapping[n], np.ravel(A[n][i])))
                elif n != "_id" or A[n][i] != -1:
                    want[n] = A[n][i]
            same_records([r], [want], f"record {i} of {what}")
            for v in sum(mapping.values(), []):
                require(np.ndim(r[v]) == 0, lambda: f"{what}: {v} is {r[v]!r}, not a scalar", "scalar comes back as array")
        B = m.list_dicts_to_np(recs, dtype=list(dt), mapping=mapping)
        require(len(B) == len(A) and set(B.dtype.names) == set(A.dtype.names), lambda: f"{what}: comes back as {B.dtype}", "fields")
        for n in A.dtype.names:
            require(same_col(A[n], B[n]), lambda: f"{what}: field {n} comes back as {B[n]!r}", "value in the array")
        # to separate fields and back
        U = m.unmap_numpy_array(A, mapping)
        require(len(U) == len(A), f"{what}: {len(U)} rows when unmapped", "number of rows")
        names = [v for n in A.dtype.names for v in mapping.get(n, [n])]
        require(sorted(U.dtype.names) == sorted(names), lambda: f"{what}: unmapped to {U.dtype}", "fields when unmapped")
        for n in A.dtype.names:
            if n not in mapping:
                require(same_col(A[n], U[n]), lambda: f"{what}: unmapping changes {n} to {U[n]!r}", "unmapped field")
                continue
            cols = A[n].reshape(len(A), len(mapping[n]))
            for i, v in enumerate(mapping[n]):
                require(same_col(np.ascontiguousarray(cols[:, i] if len(A) else A[n].reshape(-1)), np.ascontiguousarray(U[v])), lambda: f"{what}: unmapped {v} is {U[v]!r} instead of {cols[:, i]!r}", "unmapped value")
        M = m.map_numpy_array(U, mapping)
        require(len(M) == len(A) and set(M.dtype.names) == set(A.dtype.names), lambda: f"{what}: mapped back to {M.dtype}", "fields when mapped")
        for n in A.dtype.names:
            a, b = A[n], M[n]
            if n in mapping and a.shape != b.shape and a.size == b.size:
                b = b.reshape(a.shape)  # a vector of length one may come back as a scalar
            require(same_col(np.ascontiguousarray(a), np.ascontiguousarray(b)), lambda: f"{what}: mapped back {n} is {M[n]!r} instead of {A[n]!r}", "mapped value")
    except Violation:
        raise
    except Exception as e:
        import traceback

        raise Violation(f"conversion fails on {what}: {e!r}\n{traceback.format_exc()[-800:]}", f"conversion fails: {type(e).__name__} {str(e)[:40]}")
    require(repr(A) == repr(keep) and mapping == km, "a conversion changed its input", "argument changed")
    require(m.map_numpy_array(None, mapping) is None and m.unmap_numpy_array(None, mapping) is None and m.list_dicts_to_np(None) is None, "None is not passed on", "no array")
    for _, b, s, _ in case["fields"]:
        rec.label(f"{b}{' vector' if s else ''}")
    if mapping:
        rec.label("mapping")
    rec.nontrivial(len(A) > 1 and (bool(mapping) or len(A.dtype.names) > 2), interest=A.nbytes)


# ------------------------------------------------------------------ generators for arrays behind the record interface


def api_strategy():
    return st.fixed_dictionaries(
        {
            "vars": st.lists(st.sampled_from(["core", "edge", "x", "x0", "x1", "beam", "z"]), min_size=1, max_size=5, unique=True),
            "objs": st.lists(st.sampled_from(["energy", "f", "cost"]), min_size=1, max_size=2, unique=True),
            "split": st.integers(0, 4),
            "cube": st.booleans(),
            "id": st.booleans(),
            "local": st.booleans(),
            "rounds": st.lists(st.tuples(st.integers(1, 5), st.integers(0, 1000)), min_size=1, max_size=4),
            "explicit": st.booleans(),
            "foreign": st.integers(0, 3),
        }
    )


def api_setup(case):
    """VOCS and mapping of a generator that works on vectors."""
    from gest_api.vocs import VOCS

    vs, objs = list(case["vars"]), list(case["objs"])
    mapping = {}
    k = case["split"]
    if case["explicit"]:
        if 0 < k < len(vs):
            mapping = {"x": vs[: len(vs) - k], "y": vs[len(vs) - k:]}
            if "y" in vs or ("x" in vs and "x" not in mapping["x"]):
                mapping = {"x": vs}
        else:
            mapping = {"x": vs}
        if objs != ["f"]:
            mapping["f"] = objs
    cube = [f"{v}_cube" for v in vs] if case["cube"] else []
    variables = {v: [-1.0, 1.0] for v in vs}
    if cube:
        mapping["x_on_cube"] = cube
        variables.update({c: [0, 1] for c in cube})
    vocs = VOCS(variables=variables, objectives={o: "EXPLORE" for o in objs})
    return vocs, mapping, vs, objs, cube


def api(case, rec):
    from libensemble.generators import LibensembleGenerator

    vocs, mapping, vs, objs, cube = api_setup(case)
    log = {"out": [], "in": []}
    given = copy.deepcopy(mapping)

    class G(LibensembleGenerator):
        returns_id = case["id"]

        def suggest_numpy(self, n=0):
            g1 = mapping.get("x") or vs
            dt = [("x", float, (len(g1),)) if vs != ["x"] or case["explicit"] else ("x", float)]
            if "y" in mapping:
                dt.append(("y", float, (len(mapping["y"]),)))
            if cube:
                dt.append(("x_on_cube", float, (len(cube),)))
            if case["id"]:
                dt.append(("sim_id", int))
            if case["local"]:
                dt.append(("local_pt", bool))
            out = np.zeros(n, dtype=dt)
            k = sum(len(o) for o in log["out"])
            for i in range(n):
                for f in ("x", "y", "x_on_cube"):
                    if f in out.dtype.names:
                        v = [(k + i) + j / 8 + 100 * len(f) for j in range(out[f][i].size)]
                        out[f][i] = v if out[f][i].ndim else v[0]
                if case["id"]:
                    out["sim_id"][i] = k + i
                if case["local"]:
                    out["local_pt"][i] = (k + i) % 2
            log["out"].append(out.copy())
            return out

        def ingest_numpy(self, results):
            log["in"].append(results.copy())

    g = G(vocs, variables_mapping=mapping)
    where = {}
    for f, g1 in (("x", given.get("x") or vs), ("y", given.get("y", [])), ("x_on_cube", cube)):
        for j, v in enumerate(g1):
            where[v] = (f, j)
    total = 0
    for n, order in case["rounds"]:
        recs = g.suggest(n)
        out = log["out"][-1]
        keys = set(where) | ({"_id"} if case["id"] else set()) | ({"local_pt"} if case["local"] else set())
        want = []
        for i in range(n):
            w = {v: np.ravel(out[f][i])[j] for v, (f, j) in where.items()}
            if case["id"]:
                w["_id"] = out["sim_id"][i]
            if case["local"]:
                w["local_pt"] = out["local_pt"][i]
            want.append(w)
        same_records(recs, want, f"suggest({n}) of {out} with mapping {given}")
        require(all(type(v) in (float, int, bool) for r in recs for v in r.values()), lambda: f"suggest gives {recs[0]}, not plain numbers", "types of suggested values")
        for r in recs:
            for j, o in enumerate(objs):
                r[o] = r[vs[0]] * 2 + j
        for i in range(case["foreign"] if case["id"] else 0):  # points made elsewhere
            r = dict(recs[0], **{vs[0]: -5.5 - i})
            r.pop("_id")
            recs.append(r)
        done = [recs[(i * 7919 + order) % len(recs)] for i in range(len(recs))] if math.gcd(7919, len(recs)) == 1 else recs[::-1]
        keep = snapshot(done)
        g.ingest(done)
        same_records(done, keep, "the records given to ingest")
        got = log["in"][-1]
        require(len(got) == len(done), f"{len(got)} rows ingested instead of {len(done)}", "number of rows")
        for i, r in enumerate(done):
            for v, (f, j) in where.items():
                g_ = np.ravel(got[f][i])
                require(same_value(g_[j], r[v]), lambda: f"ingest of {r} gives {f} = {g_} (mapping {given})", "value in the array")
            if case["id"]:
                require(int(got["sim_id"][i]) == r.get("_id", -1), lambda: f"ingest of {r} gives sim_id {got['sim_id'][i]}", "ids in the array")
            f_ = np.ravel(got["f"][i])
            require(len(f_) == len(objs) and all(same_value(a, float(r[o])) for a, o in zip(f_, objs)), lambda: f"ingest of {r} gives f = {f_} for {objs}", "value in the array")
        total += n
    rec.label("explicit mapping" if case["explicit"] else "default mapping")
    if case["foreign"] and case["id"]:
        rec.label("some records without id")
    rec.nontrivial(total > 1 and len(vs) > 1, interest=total * len(where))


# ------------------------------------------------------------------ simulator wrapper


def sim_strategy():
    return st.fixed_dictionaries(
        {
            "nv": st.integers(1, 3), "nc": st.integers(0, 2), "no": st.integers(1, 2), "nobs": st.integers(0, 2), "ncon": st.integers(0, 1),
            "n": st.integers(0, 5),
            "info": st.sampled_from(["named", "kwargs", "none"]),
            "user": st.booleans(),
            "skip": st.booleans(),
            "fail": st.sampled_from([None, None, None, "type", "value"]),
            "asdict": st.booleans(),
        }
    )


def sim_wrapper(case, rec):
    from gest_api.vocs import VOCS

    from libensemble.sim_funcs.gest_api_wrapper import gest_api_sim

    vs = [f"v{i}" for i in range(case["nv"])]
    cs = [f"c{i}" for i in range(case["nc"])]
    outs = [f"o{i}" for i in range(case["no"])]
    obs = [f"b{i}" for i in range(case["nobs"])]
    cons = [f"k{i}" for i in range(case["ncon"])]
    d = dict(variables={v: [-9, 9] for v in vs}, constants={c: 1.5 for c in cs}, objectives={o: "MINIMIZE" for o in outs},
             observables={b: "float" for b in obs}, constraints={k: ["LESS_THAN", 0.0] for k in cons})
    vocs = d if case["asdict"] else VOCS(**d)
    calls = []

    def body(inp, info, factor):
        calls.append((copy.deepcopy(inp), info))
        if case["fail"] and len(calls) == 2:
            raise (TypeError if case["fail"] == "type" else ValueError)("unsupported operand in the simulator")
        s = sum(float(np.sum(v)) for v in inp.values()) * factor
        out = {o: s + i for i, o in enumerate(outs)}
        out.update({b: s * 2 + i for i, b in enumerate(obs)})
        if not (case["skip"] and len(calls) % 2):
            out.update({k: -s for k in cons})
        out["extra"] = 17
        return out

    if case["info"] == "named":
        def f(input_dict, libE_info=None, factor=1):
            return body(input_dict, libE_info, factor)
    elif case["info"] == "kwargs":
        def f(input_dict, **kw):
            return body(input_dict, kw.get("libE_info"), kw.get("factor", 1))
    else:
        def f(input_dict, factor=1):
            return body(input_dict, None, factor)

    H = np.zeros(case["n"], dtype=[(v, float) for v in vs + cs] + [("sim_id", int)])
    for i in range(case["n"]):
        for j, v in enumerate(vs + cs):
            H[v][i] = i * 10 + j + 0.25
        H["sim_id"][i] = 7 + i
    specs = {"simulator": f, "vocs": vocs, "out": [(o, float) for o in outs + obs + cons], "user": {"factor": 3} if case["user"] else {}}
    info = {"H_rows": np.arange(case["n"]), "workerID": 1}
    pi = {"n": 1}
    factor = 3 if case["user"] else 1
    exc = None
    try:
        got, pi2 = gest_api_sim(H, pi, specs, info)
    except (TypeError, ValueError) as e:
        exc = e
    want_calls = case["n"] if not case["fail"] or case["n"] < 2 else 2
    seen = [[c[0].get(v) for v in vs + cs] for c in calls]
    require(seen == [[float(H[v][i]) for v in vs + cs] for i in range(want_calls)], lambda: f"the simulator was called with {seen} for {H}", "calls of the simulator")
    require(all(set(c[0]) == set(vs + cs) for c in calls), lambda: f"the simulator was given {calls[0][0]}", "fields given to the simulator")
    if case["info"] != "none":
        require(all(c[1] is info for c in calls), "libE_info was not passed to a simulator that takes it", "libE_info")
    if case["fail"] and case["n"] >= 2:
        require(exc is not None and "unsupported operand" in str(exc), f"the simulator's error was lost: {exc!r}", "error of the simulator")
        rec.label("failing simulator")
        rec.nontrivial(True)
        return
    require(exc is None, lambda: f"the wrapper fails: {exc!r}", "wrapper fails")
    require(pi2 is pi and len(got) == case["n"], "number of results", "number of results")
    for i in range(case["n"]):
        s = sum(float(H[v][i]) for v in vs + cs) * factor
        for o, w in [(o, s + j) for j, o in enumerate(outs)] + [(b, s * 2 + j) for j, b in enumerate(obs)] + [(k, 0.0 if case["skip"] and (i + 1) % 2 else -s) for k in cons]:
            require(got[o][i] == w, lambda: f"point {i}: {o} is {got[o][i]} instead of {w}", "result of the simulator")
    rec.label(f"libE_info {case['info']}")
    rec.nontrivial(case["n"] > 1, interest=case["n"])


# ------------------------------------------------------------------ whole runs


def run_strategy():
    return st.fixed_dictionaries(
        {
            "nw": st.integers(2, 4),
            "delays": st.lists(st.integers(0, 3), min_size=1, max_size=6),
            "vars": st.lists(st.tuples(st.sampled_from(["a", "b", "core", "edge", "x0"]), st.sampled_from(["float", "float", "int", "text", "vec"])), min_size=1, max_size=4, unique_by=lambda t: t[0]),
            "form": st.sampled_from(["vocs", "vocs", "explicit", "mapped"]),
            "const": st.booleans(),
            "obs": st.booleans(),
            "id": st.booleans(),
            "simid": st.booleans(),
            "H0": st.integers(0, 3),
            "h0id": st.booleans(),
            "gom": st.booleans(),
            "async": st.booleans(),
            "simulator": st.booleans(),
            "init": st.integers(1, 5),
            "batch": st.integers(0, 4),
            "max": st.integers(2, 14),
            "wide": st.booleans(),
            "vals": st.lists(st.integers(-50, 50), min_size=1, max_size=8),
            "final": st.booleans(),
            "safe": st.booleans(),
            "ret": st.booleans(),
            "libe": st.sampled_from([False, False, True]),
        }
    )


def run_value(kind, k, vals):
    v = vals[k % len(vals)]
    if kind == "float":
        return k + v / 128.0
    if kind == "int":
        return k * 3 + v
    if kind == "text":
        return ["red", "g", "yellow"][(k + v) % 3]
    return np.array([k, v / 4.0, -k - 0.5])


def result_of(d, names):
    s = 0.0
    for j, n in enumerate(names):
        v = d[n]
        s += (j + 1) * (len(str(v)) * 1.5 if isinstance(v, (str, np.str_)) else float(np.sum(np.asarray(v, dtype=float) * [1, 2, 4][: np.size(v)])))
    return s


def run_case(case, rec):
    from gest_api import Generator
    from gest_api.vocs import VOCS, ContinuousVariable, DiscreteVariable

    from libensemble.alloc_funcs.start_only_persistent import only_persistent_gens
    from libensemble.generators import LibensembleGenerator
    from libensemble.specs import GenSpecs, SimSpecs

    mapped = case["form"] == "mapped"
    libe = case["libe"]
    vs = [(n, "float" if mapped or libe else k) for n, k in case["vars"]]
    names = [n for n, _ in vs]
    consts = {"alpha": 2.5, "label": "steel"} if case["const"] and not mapped and not libe else {}
    variables = {}
    for n, k in vs:
        if k == "text":
            variables[n] = DiscreteVariable(values={"red", "g", "yellow"})
        elif k == "int":
            variables[n] = ContinuousVariable(domain=[-1000, 1000], dtype=int)
        elif k == "vec":
            variables[n] = ContinuousVariable(domain=[-1000, 1000], dtype=(float, (3,)))
        else:
            variables[n] = [-1000, 1000]
    obs = ["watch"] if case["obs"] else []
    vocs = VOCS(variables=variables, objectives={"energy": "MINIMIZE"}, constants=consts, observables={o: "float" for o in obs})
    log = {"out": [], "in": [], "end": 0, "asked": []}

    class G(Generator):
        returns_id = case["id"]

        def __init__(self, vocs):
            if mapped:
                self.variables_mapping = {"x": names, "f": ["energy"]}

        def _validate_vocs(self, vocs):
            pass

        def suggest(self, n):
            log["asked"].append(n)
            out = []
            for _ in range(n):
                k = len(log["out"])
                r = {nm: run_value(kd, k, case["vals"]) for nm, kd in vs}
                r.update(consts)
                if case["id"]:
                    r["_id"] = k
                log["out"].append(copy.deepcopy(r))
                out.append(r)
            return out

        def ingest(self, results):
            log["in"].append(copy.deepcopy(results))

        def finalize(self):
            log["end"] += 1

    class L(LibensembleGenerator):
        """The same, written for arrays"""

        returns_id = case["id"] and not mapped

        def suggest_numpy(self, n=0):
            recs = G.suggest(self, n)
            out = np.zeros(n, dtype=[("x", float, (len(names),))] + ([("sim_id", int)] if self.returns_id else [("_id", int)] if case["id"] else []))
            for i, r in enumerate(recs):
                out["x"][i] = [r[nm] for nm in names]
                if case["id"]:
                    out["sim_id" if self.returns_id else "_id"][i] = r["_id"]
            return out

        def ingest_numpy(self, A):
            recs = []
            for i in range(len(A)):
                r = dict(zip(names, np.ravel(A["x"][i]).tolist()))
                r["energy"] = float(A["f"][i])
                for nm in A.dtype.names:
                    if nm == "sim_id" and self.returns_id:
                        if A[nm][i] != -1:
                            r["_id"] = int(A[nm][i])
                    elif nm not in ("x", "f") and not (nm == "_id" and A[nm][i] == -1):
                        r[nm] = A[nm][i]
                recs.append(r)
            G.ingest(self, recs)

        def finalize(self):
            log["end"] += 1

    gen = L(vocs, variables_mapping={"x": names, "f": ["energy"]} if case["wide"] else {}) if libe else G(vocs)
    allin = names + list(consts)
    run = ens.Run(case["delays"])
    evals = []

    if mapped:
        def sim_f(H, persis_info, specs, libE_info):
            out = np.zeros(len(H), dtype=specs["out"])
            for i in range(len(H)):
                x = np.ravel(H["x"][i])
                d = {n: float(x[j]) for j, n in enumerate(names)}
                evals.append(d)
                out["f"][i] = result_of(d, names)
            return out

        obs = []
        sim_specs = {"sim_f": sim_f, "in": ["x"], "out": [("f", float)]}
        gout = [("x", float, (len(names),)) if len(names) > 1 or libe else ("x", float)]
        gs = dict(generator=gen, persis_in=["x", "f"], out=gout, initial_batch_size=case["init"])
        gs["in"] = ["x", "f"]
        if case["id"]:
            gs["out"] = gs["out"] + [("_id", int)]
            gs["persis_in"] = gs["persis_in"] + ["_id"]
            gs["in"] = gs["in"] + ["_id"]
    else:
        def simulator(d, libE_info=None):
            evals.append(dict(d))
            e = result_of(d, allin)
            return dict({"energy": e}, **{o: e / 2 for o in obs})

        def sim_f(H, persis_info, specs, libE_info):
            out = np.zeros(len(H), dtype=[("energy", float)] + [(o, float) for o in obs])
            for i in range(len(H)):
                r = simulator({n: H[n][i] for n in allin})
                for o in out.dtype.names:
                    out[o][i] = r[o]
            return out, persis_info

        if case["form"] == "vocs":
            sim_specs = SimSpecs(simulator=simulator, vocs=vocs) if case["simulator"] else SimSpecs(sim_f=sim_f, vocs=vocs)
            gs = dict(generator=gen, vocs=vocs, initial_batch_size=case["init"])
        else:
            dts = {"float": float, "int": int, "text": "U8"}
            sim_specs = {"sim_f": sim_f, "in": allin, "out": [("energy", float)] + [(o, float) for o in obs]}
            gs = dict(generator=gen, initial_batch_size=case["init"], persis_in=allin + ["energy"] + obs,
                      out=[(n, float, (3,)) if k == "vec" else (n, dts[k]) for n, k in vs] + [(c, "U6" if isinstance(v, str) else float) for c, v in consts.items()])
            gs["in"] = list(gs["persis_in"])
            if case["id"]:
                gs["out"].append(("_id", int))
                gs["persis_in"].append("_id")
                gs["in"].append("_id")
    if case["batch"]:
        gs["batch_size"] = case["batch"]
    if case["simid"] and case["form"] == "explicit" and not (libe and case["id"]):
        gs["persis_in"] = list(gs["persis_in"]) + ["sim_id"]
    gen_specs = GenSpecs(**gs) if case["form"] == "vocs" else gs
    # previous history
    H0, h0recs = None, []
    if case["H0"]:
        dt = [("sim_id", int), ("sim_started", bool), ("sim_ended", bool)]
        if mapped:
            dt += [("x", float, (len(names),)) if len(names) > 1 or libe else ("x", float), ("f", float)]
        else:
            dt += [{"float": (n, float), "int": (n, int), "text": (n, "U6"), "vec": (n, float, (3,))}[k] for n, k in vs] + [(c, "U6" if isinstance(v, str) else float) for c, v in consts.items()] + [("energy", float)] + [(o, float) for o in obs]
        if case["id"] and case["h0id"]:
            dt.append(("_id", int))
        H0 = np.zeros(case["H0"], dtype=dt)
        H0["sim_id"] = np.arange(case["H0"])
        H0["sim_started"] = H0["sim_ended"] = True
        if "_id" in H0.dtype.names:
            H0["_id"] = 900 + np.arange(case["H0"])
        for i in range(case["H0"]):
            d = {n: run_value(k, 500 + i, case["vals"]) for n, k in vs}
            d.update(consts)
            e = result_of(d, allin)
            if mapped:
                H0["x"][i] = [d[n] for n in names] if len(names) > 1 or libe else d[names[0]]
                H0["f"][i] = e
            else:
                for n in allin:
                    H0[n][i] = d[n]
                H0["energy"][i] = e
                for o in obs:
                    H0[o][i] = e / 2
            r = dict(d, energy=e, **{o: e / 2 for o in obs})
            if "_id" in H0.dtype.names and case["form"] != "vocs":  # fields asked for explicitly
                r["_id"] = 900 + i
            h0recs.append(r)
    alloc_specs = {"alloc_f": run.wrap_alloc(only_persistent_gens), "user": {"async_return": case["async"]}}
    libE_specs = {"gen_on_manager": case["gom"], "final_gen_send": case["final"], "safe_mode": case["safe"], "use_persis_return_gen": case["ret"]}
    pi = {w: {"id": w} for w in range(case["nw"] + 1)}
    run.go(case["nw"], sim_specs, gen_specs, {"sim_max": case["max"]}, pi, alloc_specs, libE_specs, H0)
    clean_run(run)
    H = run.H
    n0 = case["H0"]
    new = H[n0:]
    what = f"run with {case['form']} fields"
    # what was suggested is in the history, in order
    require(len(new) <= len(log["out"]), f"{len(new)} points in the history of {len(log['out'])} suggested", "points in the history")
    require(len(new) == len(log["out"]), lambda: f"{len(new)} new points in the history, {len(log['out'])} suggested", "points in the history")
    for i, r in enumerate(log["out"]):
        for j, n in enumerate(allin):
            v = np.ravel(new["x"][i])[j] if mapped else new[n][i]
            require(same_value(v, r[n]), lambda: f"{what}: point {i} has {n} = {v!r} in the history, suggested as {r[n]!r}", "suggested value in the history")
        if case["id"]:
            require(int(new["_id"][i]) == r["_id"], lambda: f"{what}: point {i} has _id {new['_id'][i]}", "ids in the history")
    # what was given back
    ins = log["in"]
    if n0:
        require(len(ins) >= 1, "the generator was never given H0", "H0 given to the generator")
        got0 = [{k: v for k, v in r.items() if k != "sim_id"} for r in ins[0]]
        same_records(got0, h0recs, "previous points given to the generator")
        ins = ins[1:]
    got = [r for b in ins for r in b]
    seen = []
    for r in got:
        r = dict(r)
        sid = r.pop("sim_id", None)
        match = [i for i, o in enumerate(log["out"]) if i not in seen and all(n in r and same_value(r[n], o[n]) for n in o)]
        require(match, lambda: f"{what}: the generator was given {r}, which is not a point it suggested and has not yet been given: {log['out']}", "record given back")
        i = match[0]
        if sid is not None:
            require(i + n0 == sid, lambda: f"{what}: record {r} has sim_id {sid} instead of {i + n0}", "sim_id given back")
        seen.append(i)
        e = result_of(log["out"][i], allin)
        want = dict(log["out"][i], energy=e, **{o: e / 2 for o in obs})
        same_records([r], [want], "record given back")
        require(bool(new["sim_ended"][i]), "a point that has not ended was given back", "record given back")
    informed = np.flatnonzero(new["gen_informed"]).tolist()
    require(set(informed) >= set(seen), lambda: f"{what}: given back {sorted(seen)} but marked {informed}", "points given back")
    require(case["final"] or set(informed) == set(seen), lambda: f"{what}: marked as given {informed}, the generator got {sorted(seen)}", "points given back")
    if case["final"]:
        require(set(informed) == set(np.flatnonzero(new["sim_ended"]).tolist()), lambda: f"{what}: marked {informed}", "final results")
        require(set(seen) == set(informed), lambda: f"{what}: with final_gen_send the generator got {sorted(seen)} of {informed}", "final results given back")
    require(log["end"] == 1, f"finalize was called {log['end']} times", "finalize")
    require(len(evals) >= len(got), "evaluations", "evaluations")
    require(log["asked"][0] == case["init"], f"first request for {log['asked'][0]} points instead of {case['init']}", "size of requests")
    if case["batch"]:
        require(all(a == case["batch"] for a in log["asked"][1:]), lambda: f"requests {log['asked']}", "size of requests")
    else:
        sizes = [len(b) for b in ins]
        require(log["asked"][1:] == sizes[: len(log["asked"]) - 1], lambda: f"requests {log['asked']} for batches {sizes}", "size of requests")
    rec.label(f"{case['form']} fields{', generator for arrays' if libe else ''}")
    rec.label("generator on manager" if case["gom"] else "generator on worker")
    for c in ("id", "async", "simulator", "final"):
        if case[c]:
            rec.label(c)
    if n0:
        rec.label("H0")
    rec.nontrivial(len(seen) > 1 and len(ins) > 1, interest=len(seen) * len(vs))


# ------------------------------------------------------------------ persistent generator functions behind the record interface


def persis_strategy():
    return st.fixed_dictionaries(
        {
            "vars": st.lists(st.sampled_from(["core", "edge", "x0", "x1", "beam", "x"]), min_size=1, max_size=4, unique=True),
            "objs": st.lists(st.sampled_from(["energy", "f", "cost"]), min_size=1, max_size=2, unique=True),
            "rounds": st.lists(st.tuples(st.integers(1, 4), st.integers(1, 3), st.integers(0, 99)), min_size=1, max_size=4),
            "names": st.booleans(),
            "dicts": st.booleans(),
            "numpy": st.booleans(),
            "last": st.booleans(),
            "cube": st.booleans(),
        }
    )


def persis(case, rec):
    base = tempfile.mkdtemp(prefix="verif_c20_")
    try:
        r = real.in_child(lambda: persis_child(case), 60, base)
    except real.TimedOut as e:
        raise Violation(f"suggest, ingest or finalize had not ended after 60 s: {e}", "generator hangs")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    r, text, left = r
    if r[0] == "violation":
        raise Violation(r[1], r[2])
    require(r[0] == "ok", lambda: f"the generator failed: {r[1]}", "generator fails")
    n = sum(a for a, _, _ in case["rounds"])
    rec.label("several partial results" if any(b > 1 for _, b, _ in case["rounds"]) else "one result batch per suggestion")
    rec.nontrivial(n > 1 and len(case["rounds"]) > 1, interest=n * len(case["vars"]))


def persis_child(case):
    import traceback

    try:
        persis_body(case)
    except Violation as e:
        return ("violation", str(e), e.sig)
    except Exception:
        return ("fail", traceback.format_exc()[-1500:])
    return ("ok",)


def persis_body(case):
    from gest_api.vocs import VOCS

    from libensemble.generators import PersistentGenInterfacer
    from libensemble.message_numbers import EVAL_GEN_TAG, FINISHED_PERSISTENT_GEN_TAG, PERSIS_STOP, STOP_TAG
    from libensemble.tools.persistent_support import PersistentSupport

    vs, objs = case["vars"], case["objs"]
    cube = [f"{v}_on" for v in vs] if case["cube"] else []
    rounds = case["rounds"]
    xscalar = vs == ["x"]

    def parts(n, p):
        return [len(a) for a in np.array_split(np.arange(n), min(p, n))]

    def gen_f(H, persis_info, gen_specs, libE_info):
        ps = PersistentSupport(libE_info, EVAL_GEN_TAG)
        dt = gen_specs["out"]
        k, tag, got = 0, None, []
        allout = np.zeros(sum(a for a, _, _ in rounds), dtype=dt)
        for n, p, _ in rounds:
            o = np.zeros(n, dtype=dt)
            for i in range(n):
                o["sim_id"][i] = k + i
                v = [(k + i) * 2 + j / 4 for j in range(len(vs))]
                o["x"][i] = v[0] if xscalar else v
                if cube:
                    o["xon"][i] = [a / 100 for a in v]
            allout[k : k + n] = o
            k += n
            ps.send(o)
            for _ in parts(n, p):
                tag, work, res = ps.recv()
                if tag in (STOP_TAG, PERSIS_STOP):
                    break
                got.append((np.array(work["libE_info"]["H_rows"]), res))
            if tag in (STOP_TAG, PERSIS_STOP):
                break
        if tag not in (STOP_TAG, PERSIS_STOP):
            tag, work, res = ps.recv()
        persis_info["got"] = got
        persis_info["tag"] = tag
        return allout[:k], persis_info, FINISHED_PERSISTENT_GEN_TAG

    class G(PersistentGenInterfacer):
        returns_id = True

    variables = {v: [-1e3, 1e3] for v in vs}
    variables.update({c: [0, 1e3] for c in cube})
    mapping = {}
    if cube or not xscalar:
        mapping["x"] = list(vs)
    if xscalar and not cube:
        mapping = {}
    if cube:
        mapping["xon"] = cube
        if xscalar:
            mapping["x"] = ["x"]
    if objs != ["f"]:
        mapping["f"] = list(objs)
    vocs = VOCS(variables=variables, objectives={o: "EXPLORE" for o in objs})
    out = [("sim_id", int), ("x", float) if xscalar else ("x", float, (len(vs),))] + ([("xon", float, (len(cube),))] if cube else [])
    gen_specs = {"gen_f": gen_f, "out": out, "persis_in": ["sim_id", "x", "f"], "user": {}}
    gen = G(vocs, History=np.zeros(0, dtype=out), persis_info={"rand_stream": np.random.default_rng(0)}, gen_specs=gen_specs, libE_info={}, variables_mapping=mapping)
    given, k = [], 0
    for ri, (n, p, order) in enumerate(rounds):
        want = []
        for i in range(n):
            r = {v: (k + i) * 2 + j / 4 for j, v in enumerate(vs)}
            r.update({c: ((k + i) * 2 + j / 4) / 100 for j, c in enumerate(cube)})
            r["_id"] = k + i
            want.append(r)
        recs = gen.suggest(n)
        same_records(recs, want, f"suggest() number {ri}")
        k += n
        for r in recs:
            for j, o in enumerate(objs):
                r[o] = 1000.0 + r["_id"] * 10 + j
        recs = recs[order % n :] + recs[: order % n]
        at = 0
        for ln in parts(n, p):
            if case["last"] and ri == len(rounds) - 1 and at:
                break  # the last results are never given
            part = recs[at : at + ln]
            at += ln
            given.append(part)
            if case["numpy"]:
                A = np.zeros(ln, dtype=out + [("f", float) if len(objs) == 1 else ("f", float, (len(objs),)), ("extra", int)])
                for i, r in enumerate(part):
                    A["sim_id"][i] = r["_id"]
                    A["x"][i] = r[vs[0]] if xscalar else [r[v] for v in vs]
                    A["f"][i] = r[objs[0]] if len(objs) == 1 else [r[o] for o in objs]
                gen.ingest_numpy(A)
            else:
                gen.ingest(part)
    gen.finalize()
    H, pi, tag = gen.export()
    require(tag == FINISHED_PERSISTENT_GEN_TAG, f"export gives tag {tag}", "export")
    require(pi["tag"] == PERSIS_STOP, f"the generator function was stopped with {pi['tag']}", "finalize")
    require(len(H) == k and H["sim_id"].tolist() == list(range(k)), lambda: f"export gives {H}", "export")
    got = pi["got"]
    require(len(got) == len(given), f"{len(got)} batches of results arrived, {len(given)} were given", "results given")
    for (rows, res), part in zip(got, given):
        require(rows.tolist() == [r["_id"] for r in part] == res["sim_id"].tolist(), lambda: f"rows {rows} sim_ids {res['sim_id']} for {part}", "ids in the array")
        for i, r in enumerate(part):
            x, f = np.ravel(res["x"][i]).tolist(), np.ravel(res["f"][i]).tolist()
            require(x == [r[v] for v in vs] and f == [r[o] for o in objs], lambda: f"the generator function was given x {x} f {f} for {r}", "value in the array")
        require(bool(res["sim_ended"].all()), "results are not marked as ended", "results marked")
    E, pi2, _ = gen.export(vocs_field_names=case["names"], as_dicts=case["dicts"])
    for i in range(k):
        vals = {v: k_ for v, k_ in zip(vs, np.ravel(H["x"][i]).tolist())}
        vals.update({c: a for c, a in zip(cube, np.ravel(H["xon"][i]).tolist())} if cube else {})
        if not case["names"]:
            if case["dicts"]:
                same_records([E[i]], [{n: H[n][i] for n in H.dtype.names}], "export as dicts")
            continue
        for v, a in list(vals.items()) + [("_id", i)]:
            if v == "_id" and not case["dicts"] and "_id" not in E.dtype.names:
                continue
            require(same_value(E[v][i] if not case["dicts"] else E[i][v], a), lambda: f"export gives {E[i]} for {H[i]}", "export")


TARGETS = [
    Target("records", records_strategy, records, quick=6000, thorough=120000),
    Target("arrays", arrays_strategy, arrays, quick=3000, thorough=60000),
    Target("api", api_strategy, api, quick=1200, thorough=20000),
    Target("sim_wrapper", sim_strategy, sim_wrapper, quick=1000, thorough=10000),
    Target("runs", run_strategy, run_case, quick=800, thorough=16000),
    Target("persistent", persis_strategy, persis, quick=160, thorough=3000),
]
