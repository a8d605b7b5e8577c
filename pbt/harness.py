"""Property-based-testing harness.

A *facet* is one generated-input search against one oracle; a property is a set of
facets.  Every facet draws JSON-serialisable cases with Hypothesis (so that a failing
case shrinks and becomes the replay file) and evaluates them with a plain function that
raises ``Violation`` when the oracle disagrees with the code under test.
"""

import collections
import hashlib
import json
import math
import os
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The code under test broke the property."""


class Skip(Exception):
    """The drawn case is outside the domain of the property (counted, not evaluated)."""


class Facet:
    def __init__(self, prop, name, strategy, evaluate, quick, thorough, shards, rule):
        self.prop, self.name = prop, name
        self.strategy, self.evaluate = strategy, evaluate
        # the quick counts of the facets are multiplied where time allows
        k = 1 if prop in ("C01", "C26") else 2
        self.quick, self.thorough = quick * k, max(thorough, quick * k)
        self.shards, self.rule = shards, rule


FACETS = collections.OrderedDict()


def facet(prop, name, strategy, quick=100, thorough=None, shards=1, rule=""):
    """Register ``evaluate(case) -> iterable of tags`` (or None if the case is trivial)."""

    def deco(fn):
        f = Facet(
            prop, name, strategy, fn, quick, thorough or quick * 10, shards, rule or fn.__doc__ or ""
        )
        FACETS.setdefault(prop, []).append(f)
        return fn

    return deco


def canon(case):
    return json.dumps(case, sort_keys=True)


def shard_seed(seed, prop, name, shard):
    h = hashlib.sha256(f"{seed}:{prop}:{name}:{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def _from_repo(exc):
    """Does the traceback of ``exc`` pass through the code under test?"""
    for frame in traceback.extract_tb(exc.__traceback__):
        if os.path.abspath(frame.filename).startswith(os.path.join(REPO, "ssspy") + os.sep):
            return frame
    return None


# Models whose likelihood is unbounded on few frames: a run may end in exactly singular matrices.
# (all outputs of a source at a frame may vanish together with their variance).  Such runs are skipped,
# but more than a few of them in one search count as a violation.
# Gradient methods with a fixed step diverge on some data, which ends in a singular filter as well.
UNBOUNDED = {"GradFDICA", "NaturalGradFDICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA", "GradIVA", "NaturalGradIVA",
             "GradLaplaceIVA", "NaturalGradLaplaceIVA", "GradGaussIVA", "NaturalGradGaussIVA", "AuxGaussIVA", "GaussIPSDTA", "TIPSDTA", "CACGMM", "GaussILRMA", "TILRMA", "GGDILRMA"}


def unbounded_model(case):
    if isinstance(case, dict):
        if case.get("cls") in UNBOUNDED:
            return True
        return any(unbounded_model(v) for v in case.values())
    return False


def run_case(f, case, strict=False):
    """Evaluate one case.  Returns (status, info): ok/skip/trivial/singular, or raises Violation."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tags = f.evaluate(case)
    except Violation:
        raise
    except Skip:
        return "skip", []
    except Exception as e:  # noqa: BLE001
        fr = _from_repo(e)
        if fr is None:
            raise
        if type(e).__name__ == "LinAlgError" and unbounded_model(case) and not strict:
            return "singular", []
        # An input inside the domain must be handled, not end in an exception.
        raise Violation(
            "%s raised on a valid input: %s (ssspy/%s)"
            % (type(e).__name__, str(e)[:200], os.path.relpath(fr.filename, REPO))
        ) from e
    if tags is None:
        return "trivial", []
    return "ok", list(tags)


def run_shard(prop, index, shard, n_shards, tier, seed, deadline):
    """Run one shard of a facet; return a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture import engine

    f = FACETS[prop][index]
    total = f.quick if tier == "quick" else f.thorough
    total = max(1, round(total * float(os.environ.get("VERIF_SCALE", "1"))))
    n = total // n_shards + (1 if shard < total % n_shards else 0)
    res = {
        "facet": f.name, "shard": shard, "evaluations": 0, "skipped": 0, "trivial": 0, "singular": 0,
        "late": 0, "tags": {}, "hashes": [], "samples": [], "violation": None, "error": None,
    }
    if n == 0:
        return res
    engine.MAX_SHRINKING_SECONDS = 15
    # mutating earlier cases (to find duplicates) only skews the mix of configurations
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    tags = collections.Counter()
    hashes = set()
    singular = []
    state = {"fail": None, "msg": None, "fail_t": None}
    t0 = time.time()

    def body(case):
        now = time.time()
        if now > deadline or (state["fail_t"] is not None and now > state["fail_t"] + 25):
            res["late"] += 1
            return
        case = json.loads(canon(case))
        res["evaluations"] += 1
        try:
            status, t = run_case(f, case)
        except Violation as v:
            if state["fail_t"] is None:
                state["fail_t"] = now
            state["fail"], state["msg"] = case, str(v)
            raise
        if status == "singular":
            res["singular"] += 1
            singular.append(case)
        if status in ("skip", "singular"):
            res["skipped"] += 1
            return
        if status == "trivial":
            res["trivial"] += 1
            return
        for x in t:
            tags[x] += 1
        hashes.add(hashlib.sha256(canon(case).encode()).hexdigest()[:16])
        if len(res["samples"]) < 2:
            res["samples"].append({"facet": f.name, "case": case})

    strat = f.strategy() if callable(f.strategy) else f.strategy
    test = hypothesis.given(strat)(body)
    test = settings(
        max_examples=n, database=None, deadline=None,
        phases=[Phase.generate] + ([] if os.environ.get("VERIF_NOSHRINK") else [Phase.shrink]),
        suppress_health_check=[
            HealthCheck.too_slow, HealthCheck.large_base_example, HealthCheck.data_too_large,
        ],
        print_blob=False, report_multiple_bugs=False,
    )(test)
    test = hypothesis.seed(shard_seed(seed, prop, f.name, shard))(test)
    try:
        test()
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        if state["fail"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    if state["fail"] is None and res["singular"] > 5 + 0.03 * res["evaluations"]:
        case = min(singular, key=lambda c: len(canon(c)))
        try:
            run_case(f, case, strict=True)
        except Violation as v:
            state["fail"] = case
            state["msg"] = "%s (and on %d of %d other cases)" % (v, res["singular"] - 1, res["evaluations"])
    if state["fail"] is not None:
        res["violation"] = {"case": state["fail"], "message": state["msg"]}
    res["tags"] = dict(tags)
    res["hashes"] = sorted(hashes)
    res["wall_s"] = time.time() - t0
    return res


def _worker(args):
    return run_shard(*args)


def load_property(prop):
    import importlib

    sys.path.insert(0, VERIF)
    importlib.import_module("pbt.props." + prop.lower())
    return FACETS[prop]


def clean(o):
    if isinstance(o, float) and not math.isfinite(o):
        return str(o)
    if isinstance(o, dict):
        return {k: clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    return o


def known_findings():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def main(prop, tier, seed, budget):
    import multiprocessing as mp
    from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

    t0 = time.time()
    facets = load_property(prop)
    jobs = []
    for i, f in enumerate(facets):
        shards = f.shards if tier == "quick" else max(f.shards, 8)
        for s in range(shards):
            jobs.append((prop, i, s, shards, tier, seed, t0 + budget))
    # longest facets first is unknown; interleave shards so that all facets start early
    jobs.sort(key=lambda j: (j[2], j[1]))
    n_proc = int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 1)))
    results = []
    first_violation = None
    ex = ProcessPoolExecutor(n_proc, mp_context=mp.get_context("fork"), max_tasks_per_child=None)
    pending = {ex.submit(_worker, j) for j in jobs}
    error = None
    while pending:
        done, pending = wait(pending, return_when=FIRST_COMPLETED)
        for d in done:
            if d.cancelled():
                continue
            try:
                r = d.result()
            except Exception as e:  # a worker died
                error = error or ("worker failure: %r" % (e,))
                continue
            results.append(r)
            if r["violation"] and first_violation is None:
                first_violation = r
                for p in pending:
                    p.cancel()
            if r["error"]:
                error = error or ("facet %s: %s" % (r["facet"], r["error"]))
        if first_violation is not None:
            pending = {p for p in pending if not p.cancelled()}
            # finish shards already running, they are bounded
            done, rest = wait(pending, timeout=5)
            break
    # never leave a worker behind: they hold the inherited stdout/stderr
    procs = list((getattr(ex, "_processes", None) or {}).values())
    ex.shutdown(wait=first_violation is None, cancel_futures=True)
    for p in procs:
        if p.is_alive():
            p.kill()
        p.join(5)

    known_lines, known_bad = [], None
    if first_violation is None and error is None:
        mod = sys.modules.get("pbt.props." + prop.lower())
        for k in known_findings():
            if k.get("property") == prop and k.get("status") == "known":
                try:
                    verdict = mod.known_finding(k)  # "still" or "gone"
                except Violation as v:
                    first_violation = {
                        "facet": "known_finding", "shard": 0,
                        "violation": {"case": {"known": k["id"]}, "message": str(v)},
                    }
                    break
                if verdict == "still":
                    known_lines.append(
                        "KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"])
                    )

    # evidence
    per = collections.OrderedDict()
    samples, seen = [], set()
    for f in facets:
        per[f.name] = {"evaluations": 0, "distinct_nontrivial": 0, "trivial": 0, "skipped": 0, "singular_runs": 0,
                       "not_run_time_budget": 0, "tags": collections.Counter(), "rule": f.rule.strip()}
    allh = set()
    for r in sorted(results, key=lambda r: (r["facet"], r["shard"])):
        d = per[r["facet"]]
        d["evaluations"] += r["evaluations"]
        d["trivial"] += r["trivial"]
        d["skipped"] += r["skipped"]
        d["singular_runs"] += r["singular"]
        d["not_run_time_budget"] += r["late"]
        d["tags"].update(r["tags"])
        hs = {(r["facet"], h) for h in r["hashes"]}
        d["distinct_nontrivial"] += len(hs - allh)
        allh |= hs
        for s in r["samples"]:
            if r["facet"] not in seen and len(samples) < 12:
                seen.add(r["facet"])
                samples.append(s)
    for d in per.values():
        d["tags"] = dict(sorted(d["tags"].items()))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(d["evaluations"] for d in per.values()),
            "distinct_nontrivial": len(allh),
            "rule": "Cases are drawn by Hypothesis from the per-facet strategies below "
                    "(configuration, sizes, seeds of the numeric data). A case is non-trivial when its "
                    "facet's oracle was fully evaluated on it (see each facet's rule); distinct = "
                    "distinct case dictionaries.",
            "samples": samples,
            "facets": per,
            "known_findings_reproduced": len(known_lines),
        },
        "assumptions": ["numpy/scipy/hypothesis behave as documented", "IEEE double precision"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 0 if first_violation is None else 1,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
        json.dump(clean(ev), fp, indent=1, sort_keys=True)
        fp.write("\n")
    if first_violation is not None:
        v = first_violation["violation"]
        rep = {"property": prop, "facet": first_violation["facet"], "case": v["case"],
               "message": v["message"], "seed": seed, "tier": tier,
               "shard": first_violation["shard"]}
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, first_violation["facet"]))
        with open(path, "w") as fp:
            json.dump(clean(rep), fp, indent=1)
            fp.write("\n")
        print("facet=%s: %s" % (first_violation["facet"], v["message"]))
        print("case=%s" % canon(v["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        os._exit(1)
    if error is not None:
        sys.stderr.write("ERROR of the check %s: %s\n" % (prop, error))
        sys.stderr.flush()
        os._exit(2)
    for line in known_lines:
        print(line)
    print("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs"
          % (prop, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
             ev["wall_s"]))
    sys.stdout.flush()
    os._exit(0)


def replay(prop, path):
    with open(path) as fp:
        rep = json.load(fp)
    facets = {f.name: f for f in load_property(prop)}
    if rep["facet"] == "known_finding":
        mod = sys.modules["pbt.props." + prop.lower()]
        k = [k for k in known_findings() if k["id"] == rep["case"]["known"]][0]
        try:
            print("replay of known finding %s: %s" % (k["id"], mod.known_finding(k)))
        except Violation as v:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print(str(v))
            return 1
        return 0
    f = facets[rep["facet"]]
    try:
        status, _ = run_case(f, rep["case"], strict=True)
    except Violation as v:
        print("facet=%s: %s" % (f.name, v))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("replay of %s on facet %s: %s" % (path, f.name, status))
    return 0
