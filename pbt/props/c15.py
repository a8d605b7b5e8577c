"""Iteration protocol: callbacks, losses, prefixes, resumption."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.harness import Skip, Violation, facet
from pbt.props.c13 import NFILT, initial

P = "C15"
MASKED = {"MaskingPDSBSS", "MaskingADMMBSS", "HVA", "MaskingPDSHVA", "MaskingADMMHVA"}  # no loss by default
NO_INITIAL_CALL = {"GaussIPSDTA", "TIPSDTA"}


def options(case, restore):
    cfg, kw = case["cfg"], {}
    if M.has_scale(cfg):
        kw["scale_restoration"] = restore
    if "FDICA" in cfg["cls"]:
        kw["permutation_alignment"] = restore
    return kw


def state_of(m):
    t = M.Trace()
    t(m)
    return t.states[0]


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b or (a is None and b is None)


def close(a, b, tol):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    d = float(np.max(np.abs(a - b)))
    return d <= tol * max(float(np.max(np.abs(b))), 1e-8)


def base(**kw):
    d = dict(N=(2, 3), I=(2, 4), J=(25, 35), given=st.booleans())
    d.update(kw)
    return M.case_for(M.ALL, **d)


@facet(P, "callbacks_and_losses",
       lambda: base(n_iter=st.sampled_from([0, 1, 2, 3, 5]), cb=st.sampled_from(["none", "callable", "list1", "list2", "list3"]),
                    record=st.sampled_from([None, True, False]), initial_call=st.sampled_from([None, True, False]), restore=st.booleans()),
       quick=2000, thorough=30000, shards=4,
       rule="all classes: number, order and argument of callback calls, recorded losses before callbacks and equal to compute_loss() of the "
            "visible state, initial_call and record_loss honoured; all evaluated")
def callbacks_and_losses(case):
    cfg, n = case["cfg"], case["n_iter"]
    if cfg["cls"] in NFILT and n == 1 and case["restore"]:
        n = 2
    X = M.mixture_for(case)
    log = []

    def make(tag):
        def cb(method):
            entry = {"tag": tag, "self": method is m, "n_loss": None if method.loss is None else len(method.loss)}
            if method.record_loss:
                before = state_of(method)
                entry["loss"] = method.compute_loss()
                entry["pure"] = all(equal(before[k], v) for k, v in state_of(method).items())
            log.append(entry)

        return cb

    n_cb = {"none": 0, "callable": 1, "list1": 1, "list2": 2, "list3": 3}[case["cb"]]
    cbs = [make(i) for i in range(n_cb)]
    arg = {"none": None, "callable": cbs[0] if cbs else None}.get(case["cb"], cbs)
    kw = options(case, case["restore"])
    masked = cfg["cls"] in MASKED
    record = case["record"]
    if masked and record:
        record = None  # no penalty function, no loss
    if record is not None:
        kw["record_loss"] = record
    if arg is not None:
        kw["callbacks"] = arg
    m = M.build(cfg, case["seed"] % 1000, **kw)
    call = {}
    initial_call = True
    if case["initial_call"] is not None and cfg["cls"] not in NO_INITIAL_CALL:
        call["initial_call"] = initial_call = case["initial_call"]
    m(X, n_iter=n, **call, **initial(case, X))
    recorded = (not masked) if record is None else record
    n_calls = n + (1 if initial_call else 0)
    if recorded:
        if not isinstance(m.loss, list) or len(m.loss) != n_calls:
            raise Violation("%s losses for %d iterations (initial call: %s)" % (m.loss if m.loss is None else len(m.loss), n, initial_call))
        for v in m.loss:
            if not isinstance(v, float) or not (np.isfinite(v) or (cfg["cls"] in NFILT and v == np.inf)):
                raise Violation("a recorded loss is %r" % (v,))
    elif m.loss is not None:
        raise Violation("losses are recorded against record_loss=%s" % record)
    want = [i for _ in range(n_calls) for i in range(n_cb)]
    if [e["tag"] for e in log] != want:
        raise Violation("callbacks ran %s times in order %s for %d iterations" % (len(log), [e["tag"] for e in log][:6], n))
    for j, e in enumerate(log):
        k = j // n_cb
        if not e["self"]:
            raise Violation("a callback received something else than the method")
        if recorded:
            if e["n_loss"] != k + 1:
                raise Violation("callback %d sees %d losses" % (k, e["n_loss"]))
            if e["loss"] != m.loss[k] and not abs(e["loss"] - m.loss[k]) <= 1e-9 * max(1, abs(m.loss[k])):
                raise Violation("loss %d is %.12g, the visible state has %.12g" % (k, m.loss[k], e["loss"]))
            if not e["pure"]:
                raise Violation("computing the loss changes the state")
    return [cfg["cls"], "cb=%s" % case["cb"], "initial_call=%s" % case["initial_call"], "record=%s" % case["record"], "n=%d" % n]


@facet(P, "default_iterations", lambda: base(J=(20, 20), N=(2, 2), I=(2, 2), restore=st.booleans()), quick=80, thorough=800, shards=2,
       rule="without n_iter exactly 100 iterations run, each followed by the callback; all evaluated")
def default_iterations(case):
    X = M.mixture_for(case)
    count = [0]

    def cb(method):
        count[0] += 1

    m = M.build(case["cfg"], 1, callbacks=cb, **options(case, False))
    try:
        m(X)
    except np.linalg.LinAlgError:  # a model that overfits the few frames
        raise Skip
    if count[0] != 101:
        raise Violation("default run calls back %d times, documented: 100 iterations and the initial call" % count[0])
    return [case["cfg"]["cls"]]


@facet(P, "prefix", lambda: base(n_iter=gen.iters(1, 4), cut=st.integers(0, 3), quiet=st.booleans()), quick=1500, thorough=25000, shards=4,
       rule="all classes: the first j states of a k-iteration run are exactly those of a j-iteration run and its final state, whether or not "
            "losses are recorded or callbacks observe it; given initial values are the initial state; all evaluated")
def prefix(case):
    cfg = case["cfg"]
    k = case["n_iter"]
    j = min(case["cut"], k)
    X = M.mixture_for(case)
    seed = case["seed"] % 1000
    init = initial(case, X)
    tr = M.Trace()
    kw = options(case, False)
    if cfg["cls"] == "CACGMM":
        cfg = dict(cfg, perm=False)
    a = M.build(cfg, seed, callbacks=tr, **kw)
    a(X, n_iter=k, **init)
    if case["quiet"]:
        kw["record_loss"] = False
    b = M.build(cfg, seed, **kw)
    out = b(X, n_iter=j, **init)
    ref = tr.states[j]
    for name, v in state_of(b).items():
        if name in ("output", "posterior"):
            continue
        if not close(v, ref[name], 1e-9):
            raise Violation("%s after %d iterations differs from the state inside a run of %d iterations" % (name, j, k))
    if M.has_filter(cfg) and cfg["cls"] not in M.WHITE and cfg["cls"] not in M.ICA_CLS:
        if not close(out, refs.apply_w(ref["demix_filter"], X), 1e-9):
            raise Violation("output of %d iterations is not that of the state inside a longer run" % j)
    if M.is_free(cfg) and not close(out, ref["output"], 1e-9):
        raise Violation("output of %d iterations is not that of the state inside a longer run" % j)
    if not case["quiet"] and b.loss is not None and not np.allclose(b.loss, a.loss[: j + 1], rtol=1e-9, atol=1e-9):
        raise Violation("losses of a shorter run differ from those of a longer run")
    # the given values are where the run starts
    s0 = tr.states[0]
    for name, v in init.items():
        if name == "demix_filter" and M.is_free(cfg):
            Y0 = refs.apply_w(v, X)
            if not close(s0["output"], Y0, 1e-10):
                raise Violation("the given demixing filter is not the starting point")
            continue
        if name == "variance":
            continue  # a quantity of the current iteration, not an argument
        if name in ("basis", "activation") and "IPSDTA" in cfg["cls"] and cfg["norm"]:
            continue  # normalised first
        if not close(s0[name], v, 1e-12):
            raise Violation("the given %s is not the starting point" % name)
    return [cfg["cls"], "j=%d k=%d" % (j, k), "given" if init else "default"]


@facet(P, "resume", lambda: base(n1=st.integers(0, 3), n2=st.integers(0, 3), how=st.sampled_from(["again", "fresh"])),
       quick=1500, thorough=25000, shards=4,
       rule="classes keeping a filter (CACGMM restarts by design): continuing on the same object, or in a fresh object given the public state, equals "
            "one uninterrupted run; recorded losses continue; algorithms without a filter: see the known finding; unstable steps are tolerated to 1e-6")
def resume(case):
    cfg, n1, n2 = case["cfg"], case["n1"], case["n2"]
    if M.is_free(cfg) or cfg["cls"] == "CACGMM":
        return None
    X = M.mixture_for(case)
    seed = case["seed"] % 1000
    init = initial(case, X)
    kw = options(case, False)
    whole = M.build(cfg, seed, **kw)
    o = whole(X, n_iter=n1 + n2, **init)
    first = M.build(cfg, seed, **kw)
    first(X, n_iter=n1, **init)
    s = state_of(first)
    call = {}
    if cfg["cls"] not in NO_INITIAL_CALL:
        call["initial_call"] = False
    if case["how"] == "again":
        second = first
        out = second(X, n_iter=n2, **call)
    else:
        second = M.build(cfg, seed + 1, **kw)
        names = [k for k in s if k in ("demix_filter", "basis", "activation", "latent", "spatial", "diagonalizer", "dual", "auxiliary1",
                                       "auxiliary2", "dual1", "dual2") and s[k] is not None]
        out = second(X, n_iter=n2, **call, **{k: s[k] for k in names})
    if not close(out, o, 1e-6):
        raise Violation("resuming (%s) %d+%d iterations differs from one run by %.3g" % (case["how"], n1, n2, gen.rel_err(out, o)))
    for name, v in state_of(whole).items():
        if name == "variance" or v is None:
            continue
        if not close(state_of(second)[name], v, 1e-6):
            raise Violation("%s after resuming differs from one run" % name)
    if whole.loss is not None and case["how"] == "again":
        got = list(second.loss)
        if cfg["cls"] in NO_INITIAL_CALL:
            del got[n1 + 1]  # evaluated again at the start of the second call
        if len(got) != n1 + n2 + 1:
            raise Violation("losses do not accumulate over calls: %d after %d+%d" % (len(got), n1, n2))
        if "Gauss" in cfg["cls"] and "IVA" in cfg["cls"]:
            return [cfg["cls"], case["how"]]
        if not np.allclose(got, whole.loss, rtol=1e-6, atol=1e-6):
            raise Violation("losses of a resumed run differ from one run")
    return [cfg["cls"], case["how"], "%d+%d" % (n1, n2)]


@facet(P, "new_data", lambda: base(restore=st.booleans(), J2=st.integers(25, 40)), quick=500, thorough=8000, shards=2,
       rule="a second object-wide state never leaks: an object given new data and the initial filter explicitly gives what a fresh object "
            "gives (classes whose state is only the filter)")
def new_data(case):
    cfg = case["cfg"]
    if not M.has_filter(cfg) or cfg["cls"] in M.RANDOM or cfg["cls"] in M.PROX or cfg["cls"] in M.ICA_CLS:
        return None
    X = M.mixture_for(case)
    c2 = dict(case, J=case["J2"])
    X2 = M.mixture_for(c2, salt=4)
    kw = options(case, case["restore"])
    rng = gen.rng_of(case, 8)
    W0 = gen.unitary(rng, case["I"], case["N"])
    m = M.build(cfg, 1, **kw)
    m(X, n_iter=2)
    a = m(X2, n_iter=2, demix_filter=W0)
    b = M.build(cfg, 1, **kw)(X2, n_iter=2, demix_filter=W0)
    if not close(a, b, 1e-9):
        raise Violation("an object used before gives another result than a fresh one (%.3g)" % gen.rel_err(a, b))
    return [cfg["cls"]]


class Stop(Exception):
    """Raised by a callback to stop a run."""


@facet(P, "interrupted", lambda: base(n_iter=st.integers(1, 4), at=st.integers(0, 4), exc=st.sampled_from(["error", "keyboard", "system"]),
                                      restore=st.booleans()), quick=800, thorough=12000, shards=4,
       rule="all classes: an exception raised by a callback before or after any iteration reaches the caller, leaves exactly the state and "
            "losses of that moment of an undisturbed run, calls nothing afterwards, and (where a filter is kept) the object continues from "
            "there to the result of the undisturbed run; all evaluated")
def interrupted(case):
    cfg, k = case["cfg"], case["n_iter"]
    at = min(case["at"], k)
    X = M.mixture_for(case)
    seed = case["seed"] % 1000
    init = initial(case, X)
    kw = options(case, case["restore"])
    if cfg["cls"] == "CACGMM":
        cfg = dict(cfg, perm=False)
    tr = M.Trace()
    counts = []
    whole = M.build(cfg, seed, callbacks=[tr, lambda m: counts.append(None if m.loss is None else len(m.loss))], **options(case, False))
    want = whole(X, n_iter=k, **init)
    error = {"error": Stop("stop"), "keyboard": KeyboardInterrupt("stop"), "system": StopIteration("stop")}[case["exc"]]
    calls = [0, 0]

    def first(method):
        calls[0] += 1

    def second(method):
        calls[1] += 1
        if calls[1] == at + 1:
            raise error

    m = M.build(cfg, seed, callbacks=[second, first], **kw)
    try:
        m(X, n_iter=k, **init)
    except (Stop, KeyboardInterrupt, StopIteration) as e:
        if e is not error:
            raise Violation("another exception than the one of the callback was raised: %r" % e)
    else:
        raise Violation("the exception of a callback was swallowed")
    if calls != [at, at + 1]:
        raise Violation("callbacks ran %s times before the one that raised at call %d" % (calls, at))
    for name, v in state_of(m).items():
        if not close(v, tr.states[at][name], 1e-9):
            raise Violation("%s after an exception in iteration %d is not the state of that iteration" % (name, at))
    if m.loss is not None and (len(m.loss) != at + 1 or not np.allclose(m.loss, whole.loss[: at + 1], rtol=1e-9, atol=1e-9, equal_nan=True)):
        raise Violation("losses after an exception in iteration %d: %s" % (at, m.loss))
    tags = [cfg["cls"], case["exc"], "at=%d of %d" % (at, k)]
    if M.is_free(cfg) or cfg["cls"] == "CACGMM" or case["restore"]:
        return tags
    m.callbacks = None
    call = {} if cfg["cls"] in NO_INITIAL_CALL else {"initial_call": False}
    out = m(X, n_iter=k - at, **call)
    if not close(out, want, 1e-6):
        raise Violation("continuing after an exception in iteration %d of %d differs from one run by %.3g" % (at, k, gen.rel_err(out, want)))
    return tags + ["continued"]


def known_finding(k):
    """Second call of an object whose spatial algorithm keeps no filter."""
    still = 0
    for cls in ("AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "GaussILRMA", "TILRMA", "GGDILRMA"):
        for sa in ("ISS", "ISS1", "ISS2", "IPA"):
            if sa == "IPA" and cls in ("TILRMA", "GGDILRMA"):
                continue
            cfg = {"cls": cls, "sa": sa}
            if cls == "AuxIVA":
                cfg["contrast"] = "laplace"
            if "ILRMA" in cls:
                cfg.update(K=2, p=2, part=False, norm=True)
            if cls == "TILRMA":
                cfg["dof"] = 4
            if cls == "GGDILRMA":
                cfg["beta"] = 1
            case = {"cfg": cfg, "seed": 3, "N": 2, "I": 3, "J": 30}
            X = M.mixture_for(case)
            m = M.build(cfg, 1)
            m(X, n_iter=2)
            try:
                out = m(X, n_iter=2)
            except ValueError as e:
                if "matmul" not in str(e):
                    raise Violation("%s %s: second call fails with %s" % (cls, sa, e))
                still += 1
                continue
            except Exception as e:  # noqa: BLE001
                raise Violation("%s %s: second call fails with %r" % (cls, sa, e))
            if out.shape != X.shape or not np.all(np.isfinite(out)):
                raise Violation("%s %s: second call returns garbage" % (cls, sa))
    return "still" if still else "gone"
