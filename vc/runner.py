"""Runs every contract of a property and writes the evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import sys
import time
import traceback

import numpy as np

from . import engine as E

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")
ENGINE_FAULTS = (NotImplementedError,)


def jsonable(v):
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


def _only_relabelled(cls):
    """a class of the library with some methods replaced: everything its constructor sets is set by the library's own one"""
    lib = [k for k in cls.__mro__ if k.__module__.startswith(("gym_electric_motor", "gem_controllers"))]
    own = [k for k in cls.__mro__ if k.__module__.startswith(("contracts", "vc"))]
    return bool(lib) and not any("__init__" in vars(k) or "__new__" in vars(k) for k in own)


def harness_exception(cx):
    """the exception says that the contract (stub, attribute of our own objects, ...) does not fit, not the code"""
    ex = getattr(cx, "exception", None)
    if ex is None:
        return False
    if getattr(cx, "exc_frame", None) is None:
        return True
    if isinstance(ex, AttributeError):
        o = getattr(ex, "obj", None)
        mod = getattr(type(o), "__module__", "") or ""
        if mod.startswith(("contracts", "vc")) and not _only_relabelled(type(o)):
            return True
        # attribute of a real object asked for by the contract itself
    last = traceback.extract_tb(ex.__traceback__)[-1]
    if last.filename.startswith(VERIF):
        return True
    return False


def concrete_fail(c, values, rng):
    """('fail', cx) only when it is a failure of the code that repeats with the same values."""
    st, cx, info = E.run_concrete(c, values, rng)
    if st != "fail":
        return st, cx
    if harness_exception(cx):
        real = [f for f in cx.failures if not f[0].startswith("no exception")]
        if not real:
            return "harness", cx
        cx.failures = real
    if not E.stable_failure(c, cx):
        return "unstable", cx
    return "fail", cx


def perturb(values, rng, k):
    out = {}
    for n, v in values.items():
        if isinstance(v, float) and rng.random() < 0.5:
            out[n] = v * (1 + rng.uniform(-1, 1) * 10 ** rng.randint(-6, 0)) if rng.random() < 0.7 else v
        else:
            out[n] = v
    return out


def run_contract(prop, idx, tier, seed):
    """executed in a worker process"""
    c = E.REGISTRY[prop][idx]
    b = E.Budget(tier)
    out = {"contract": c.id, "mode": c.mode, "targets": c.targets, "assumes": c.assumes, "violations": [], "obligations": [], "problem": None,
           "functions": [], "paths": 0, "reached": 0, "solver_time": 0.0, "samples": 0, "sample_checks": 0, "sample_values": None, "rejects": 0, "notes": []}
    t0 = time.time()
    rng = random.Random(f"{seed}/{prop}/{c.id}")
    np.random.seed(seed)
    refuted = []
    harness = None
    if c.mode == "prove":
        r = E.run_symbolic(c, b)
        out.update(problem=r.problem, functions=sorted(r.functions), paths=r.paths, reached=r.reached, solver_time=round(r.solver_time, 3))
        for o in r.obls:
            out["obligations"].append((o.name, o.status, o.backend, round(o.time, 4)))
            if o.status == "refuted":
                refuted.append(o)
            elif o.status == "unknown":
                out["notes"].append(f"undecided obligation {o.name}: {o.goal[:300]} {o.note}")
    found = {}

    def record(cx, via, model_of=None):
        for n, info in cx.failures:
            key = re.sub(r"\[[0-9,]+\]", "", n)
            if key not in found and len(found) < 8:
                found[key] = {"obligation": n, "info": str(info)[:1000], "values": jsonable(cx.used), "via": via}

    # replay of the verifier's counterexamples on the unpatched code
    replayed = {}
    for o in refuted[:24]:
        ok = False
        st = None
        if o.model is not None:
            st, cx = concrete_fail(c, o.model, random.Random(f"{seed}/r"))
            if st == "fail":
                record(cx, "counterexample of " + o.name)
                ok = True
            elif st == "harness":
                harness = cx.failures
        replayed[id(o)] = (ok, st)
    # random samples: cross-check of the idealised semantics, and search for a failing input
    n = c.samples * (1 if tier == "quick" else 25)
    if refuted and not found:
        n = max(n, c.search * (1 if tier == "quick" else 10))
    tend = time.time() + (60 if tier == "quick" else 400) if c.mode == "prove" else time.time() + (150 if tier == "quick" else 800)
    distinct = set()
    models = [o.model for o in refuted if o.model is not None]
    i = 0
    while i < n and time.time() < tend:
        i += 1
        vals = None
        if models and rng.random() < 0.5:
            vals = perturb(rng.choice(models), rng, i)
        st, cx = concrete_fail(c, vals, random.Random(f"{seed}/{c.id}/{i}"))
        if st == "reject":
            out["rejects"] += 1
            if out["rejects"] > 20 * max(1, n) and not out["samples"]:
                break
            n += 0 if vals is not None else (1 if n < 3000 and out["rejects"] < 2 * c.samples else 0)
            continue
        if st == "harness":
            harness = cx.failures
            break
        out["samples"] += 1
        out["sample_checks"] += cx.checks
        h = hashlib.sha1(repr(sorted(cx.used.items())).encode()).hexdigest()
        if cx.checks:
            distinct.add(h)
        if out["sample_values"] is None or i < 3:
            out["sample_values"] = jsonable(cx.used)
        if st == "fail":
            record(cx, f"sample {i}")
            break
    out["distinct"] = len(distinct)
    for v in found.values():
        v["contract"] = c.id
        out["violations"].append(v)
    if harness:
        out["problem"] = (out["problem"] or "") + f" contract does not fit the code: {harness[:2]}"
    if refuted and not found:
        for o in refuted[:3]:
            ok, st = replayed.get(id(o), (False, None))
            txt = f"refuted obligation {o.name} did not replay (replay: {st}); goal {o.goal[:400]}; model {jsonable(o.model)}"
            out["notes"].append(txt)
            if o.model is not None and st in ("reject",) and o.note not in ("exception", "open path", "loop cut") and not harness:
                out["violations"].append({"contract": c.id, "obligation": o.name, "info": o.goal, "values": jsonable(o.model), "via": "verifier (no failing input found)", "noinput": True})
                break
        if not out["violations"]:
            out["problem"] = (out["problem"] or "") + " refuted obligation not reproducible on the real code (spurious model)"
    out["wall"] = round(time.time() - t0, 2)
    return out


def _worker(a):
    try:
        return run_contract(*a)
    except BaseException as ex:  # noqa
        return {"contract": E.REGISTRY[a[0]][a[1]].id, "error": f"{type(ex).__name__}: {ex}\n{traceback.format_exc()[-1500:]}"}


def _child(conn, a):
    try:
        conn.send(_worker(a))
    except BaseException:  # noqa
        pass
    finally:
        conn.close()
        os._exit(0)


def pool(prop, idx, tier, seed, jobs, deadline, cs):
    """one forked process per contract: a crash or a hang of one contract does not touch the others"""
    ctx = mp.get_context("fork")
    todo = list(idx)
    running, results, tries = {}, [], {}
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            tries[i] = tries.get(i, 0) + 1
            rd, wr = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(wr, (prop, i, tier, seed)))
            p.start()
            wr.close()
            running[rd] = (p, i, time.time())
        ready = mp.connection.wait(list(running), timeout=1.0)
        for rd in ready:
            p, i, _ = running.pop(rd)
            try:
                results.append(rd.recv())
            except (EOFError, OSError):
                p.join(5)
                if tries[i] < 2 and time.time() < deadline - 60:
                    todo.append(i)
                else:
                    results.append({"contract": cs[i].id, "error": f"worker process ended without a result (exit {p.exitcode})"})
            rd.close()
            p.join(5)
            if p.is_alive():
                p.kill()
        if time.time() > deadline:
            for rd, (p, i, _) in running.items():
                p.kill()
                results.append({"contract": cs[i].id, "error": "overall time limit"})
            for i in todo:
                results.append({"contract": cs[i].id, "error": "overall time limit"})
            break
    return results


def load(prop):
    for m in ("gym_electric_motor", "gem_controllers"):  # loaded before the stand-ins are put into the module globals
        importlib.import_module(m)
    importlib.import_module(f"contracts.{prop.lower()}")
    return E.REGISTRY.get(prop, [])


def known_entries(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def main(prop, tier, seed, only=None, jobs=None, verbose=False):
    t0 = time.time()
    cs = load(prop)
    idx = [i for i, c in enumerate(cs) if (only is None or re.search(only, c.id)) and not (c.thorough_only and tier == "quick")]
    jobs = jobs or min(8, max(1, len(idx)))
    limit = 820 if tier == "quick" else 6 * 3600
    results = []
    if jobs == 1:
        for i in idx:
            results.append(_worker((prop, i, tier, seed)))
    else:
        results = pool(prop, idx, tier, seed, jobs, t0 + limit, cs)
    results.sort(key=lambda r: r["contract"])
    known = known_entries(prop)
    viol, kf = [], {}
    obligations = discharged = 0
    backends = {}
    functions = set()
    fully, bounded, undecided, errors = [], [], [], []
    st = 0.0
    samples = checks = distinct = 0
    sample_list = []
    assumes = set()
    for r in results:
        if "error" in r:
            errors.append(f"{r['contract']}: {r['error']}")
            continue
        st += r["solver_time"]
        samples += r["samples"]
        checks += r["sample_checks"]
        distinct += r.get("distinct", 0)
        assumes |= set(r["assumes"])
        if r["sample_values"] is not None and len(sample_list) < 4:
            sample_list.append({"contract": r["contract"], "inputs": r["sample_values"]})
        n_ok = 0
        for name, status, be, t in r["obligations"]:
            obligations += 1
            if status == "proved":
                discharged += 1
                n_ok += 1
                backends[be] = backends.get(be, 0) + 1
        functions |= set(r["functions"])
        if r["mode"] == "prove":
            if r["problem"] is None and r["obligations"] and n_ok == len(r["obligations"]) and r["reached"]:
                fully.append(r["contract"])
            else:
                undecided.append({"contract": r["contract"], "reason": r["problem"] or ("no obligation reached" if not r["obligations"] else "undischarged obligations"), "undischarged": [o[0] for o in r["obligations"] if o[1] != "proved"][:12], "samples": r["samples"]})
        else:
            bounded.append({"contract": r["contract"], "samples": r["samples"], "checks": r["sample_checks"]})
        for v in r["violations"]:
            k = next((k for k in known if re.fullmatch(k["contract"], v["contract"]) and re.search(k["obligation"], v["obligation"])), None)
            if k:
                kf.setdefault(k["id"], (k, v))
            else:
                viol.append(v)
    for k, v in kf.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    lines = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    if viol:
        os.makedirs(rdir, exist_ok=True)
        # a violation with a failing input first
        viol.sort(key=lambda v: bool(v.get("noinput")))
        for i, v in enumerate(viol[:5]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            v["property"] = prop
            v["replay_cmd"] = f"/opt/venv/bin/python /verif/check.py {prop} --replay {path}"
            json.dump(v, open(path, "w"), indent=1, default=repr)
            lines.append(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if v.get("noinput") else ""))
    level = "proof" if fully else "other"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"/opt/venv/bin/python /verif/check.py {prop}",
            "trusted_base": TRUSTED,
            "discharged_by": backends, "solver_time_s": round(st, 2),
            "contracts_total": len(idx), "contracts_proved": fully, "contracts_undecided_bounded_only": undecided,
            "contracts_bounded": bounded, "functions_under_contract": sorted({t for i in idx for t in cs[i].targets}),
            "functions_executed_under_proof": sorted(functions),
            "evaluations": samples, "distinct_nontrivial": distinct,
            "rule": "concrete runs of the same contracts on the unpatched code with random inputs (seeded); distinct by input values, non-trivial when at least one postcondition was evaluated",
            "concrete_checks": checks, "samples": sample_list or [{"note": "no concrete sample"}],
            "explanation": "each contract is a pre/postcondition on real functions of /repo, executed over unconstrained symbols; see DESIGN.md",
            "known_findings": [k["id"] for k, _ in kf.values()],
            "engine_errors": errors,
        },
        "assumptions": ASSUMPTIONS + sorted(assumes),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=repr)
    print(f"{prop}: {len(fully)} contracts proved, {len(undecided)} undecided (bounded), {len(bounded)} bounded, {discharged}/{obligations} obligations discharged {backends}, {samples} concrete runs, {ev['wall_s']} s")
    for u in undecided:
        print("  undecided:", u["contract"], "-", str(u["reason"])[:300], u["undischarged"][:4])
    for e in errors:
        print("  engine error:", e)
    if verbose:
        for k, r in enumerate(sorted(results, key=lambda r: -r.get("wall", 0))):
            if k >= 6 and not r.get("notes") and not r.get("violations"):
                continue
            print(f"  {r['contract']}: paths {r.get('paths')} reached {r.get('reached')} obl {len(r.get('obligations', []))} wall {r.get('wall')} samples {r.get('samples')} rej {r.get('rejects')}")
            for nt in r.get("notes", [])[:2]:
                print("      note:", nt[:420])
            for v in r.get("violations", []):
                print("      VIOL", json.dumps(v, default=repr)[:600])
    for ln in lines:
        print(ln)
    if not samples and not obligations:
        print("nothing was checked")
    sys.stdout.flush()
    return 1 if lines else 0


TRUSTED = ["the VC generator in /verif/vc (symbolic execution of the unmodified function bodies; np/math/float/int in the module globals are replaced by symbolic stand-ins)", "z3 5.3", "cvc5 1.1.2", "CPython 3.12", "numpy object-array indexing and shape handling"]
ASSUMPTIONS = [
    "machine arithmetic is treated as real arithmetic: floats are mathematical reals, float constants such as np.sqrt(3)/2, np.pi, 1/3 are the ideal constants they round",
    "sqrt, sin, cos, arctan2 are characterised by their algebraic axioms (r>=0 and r*r=x; c*c+s*s=1 with the addition formulas; x=r cos, y=r sin)",
    "third-party code (numpy, scipy, gymnasium) is trusted at the contracts stated in DESIGN.md",
]


def replay(prop, path):
    v = json.load(open(path))
    cs = load(prop)
    c = next((c for c in cs if c.id == v["contract"]), None)
    if c is None:
        print("contract not found")
        return 2
    st, cx, info = E.run_concrete(c, v["values"], random.Random(1))
    print("contract  ", c.id)
    print("inputs    ", cx.used)
    print("outcome   ", st)
    for n, i in info:
        print("  failed obligation:", n, "--", i)
    return 1 if st == "fail" else 0
