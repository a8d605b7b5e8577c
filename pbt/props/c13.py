"""Separation is a pure, deterministic function; outputs are the public filter applied to the input."""
import os
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.harness import REPO, Skip, Violation, facet

P = "C13"
INIT = ["basis", "activation", "latent", "spatial", "diagonalizer", "dual", "auxiliary1", "auxiliary2", "dual1", "dual2", "variance"]
NFILT = {"ADMMBSS", "ADMMIVA", "MaskingADMMBSS", "MaskingADMMHVA"}


def iters(case):
    n = case["n_iter"]
    if case["cfg"]["cls"] in NFILT and n == 1:
        n = 2  # the first ADMM iteration may produce a zero filter, which has no scale to restore
    return n


def options(case):
    cfg, kw = case["cfg"], {}
    if M.has_scale(cfg):
        kw["scale_restoration"] = case["scale_restoration"]
    if M.has_reference(cfg):
        kw["reference_id"] = case["ref"] % case["N"]
    if "FDICA" in cfg["cls"]:
        kw["permutation_alignment"] = case["align"]
    if case.get("record") is False:
        kw["record_loss"] = False
    return kw


def initial(case, X):
    """Random admissible initial state, as keyword arguments."""
    cfg = case["cfg"]
    if not case["given"]:
        return {}
    rng = gen.rng_of(case, 5)
    tr = M.Trace()
    m = M.build(cfg, case["seed"] % 1000 + 1, callbacks=tr)
    m(X, n_iter=0)
    s = tr.states[0]
    kw = {}
    if cfg["cls"] in M.ICA_CLS:
        q = np.linalg.qr(rng.standard_normal((case["N"], case["N"])))[0]
        kw["demix_filter"] = q
    elif cfg["cls"] in M.WHITE:
        kw["demix_filter"] = gen.unitary(rng, case["I"], case["N"])
    elif cfg["cls"] not in M.MULTI_CLS:
        kw["demix_filter"] = gen.demix_init(case, case["I"], case["N"])
    if cfg["cls"] != "CACGMM":
        for a in INIT:
            if s.get(a) is not None:
                v = s[a]
                kw[a] = tuple(x * 1.1 for x in v) if isinstance(v, tuple) else v * 1.1
        if "latent" in kw:
            kw["latent"] = kw["latent"] / 1.1
    return kw


def copies(kw):
    return {k: tuple(x.copy() for x in v) if isinstance(v, tuple) else v.copy() for k, v in kw.items()}


def eq(a, b):
    return np.array_equal(a, b, equal_nan=True)


def same(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a.shape == b.shape and a.dtype == b.dtype and eq(a, b)


def cases(**kw):
    return M.case_for(M.ALL, N=(2, 3), I=(2, 5), J=(25, 40), short=2, level=True, n_iter=gen.iters(0, 3), ref=st.integers(0, 4),
                      scale_restoration=st.sampled_from([True, False, "projection_back", "minimal_distortion_principle"]),
                      align=st.booleans(), given=st.booleans(), record=st.booleans(), **kw)


@facet(P, "output_is_filtered_input", lambda: cases(), quick=1600, thorough=25000, shards=4,
       rule="all separation classes: returned output equals the public filter applied to the (whitened) input; methods without a "
            "filter return a per-bin invertible linear function of the input; separate() filters any data; all evaluated")
def output_is_filtered_input(case):
    cfg = case["cfg"]
    X = M.mixture_for(case)
    m = M.build(cfg, case["seed"] % 1000, **options(case))
    out = m(X, n_iter=iters(case), **initial(case, X))
    if not isinstance(out, np.ndarray) or out.shape != (M.n_src(case),) + X.shape[1:] or np.iscomplexobj(out) != np.iscomplexobj(X):
        raise Violation("output is %s %s" % (getattr(out, "shape", None), getattr(out, "dtype", None)))
    if not np.all(np.isfinite(out)):
        if "Grad" in cfg["cls"] and case["n_iter"] > 3:
            raise Skip  # too large a step for these data: the iteration diverges
        raise Violation("output is not finite")
    if not np.array_equal(out, m.output):
        raise Violation("returned value differs from the output attribute")
    if not np.array_equal(m.input, X):
        raise Violation("the input attribute differs from the given input")
    tags = [cfg["cls"], "n_iter=%d" % case["n_iter"]]
    if cfg["cls"] in M.MULTI_CLS:
        return tags
    real = cfg["cls"] in M.ICA_CLS
    X3 = X[:, None, :] if real else X
    if M.is_free(cfg):
        W = refs.fit_w(out, X)
        if not gen.rel_err(refs.apply_w(W, X), out) < 1e-7:
            raise Violation("output is not a per-bin linear function of the channels")
        if not np.all(np.linalg.cond(W) < 1e8):
            raise Skip
        if m.demix_filter is not None:
            raise Violation("a filter is exposed although the algorithm keeps none")
        return tags + ["no filter"]
    W = m.demix_filter[None] if real else m.demix_filter
    if cfg["cls"] in M.WHITE:
        Z = m.whitened_input[None].transpose(1, 0, 2) if real else m.whitened_input
        B = refs.fit_w(Z, X3)
        if not gen.rel_err(refs.apply_w(B, X3), Z) < 1e-7:
            raise Violation("the whitened input is not a linear function of the input")
        for i in range(Z.shape[1]):
            c = Z[:, i] @ np.conj(Z[:, i].T) / Z.shape[2]
            if not np.max(np.abs(c - np.eye(len(c)))) < 1e-6:
                raise Violation("the whitened input is not white")
        base = Z
    else:
        base = X3
    want = refs.apply_w(W, base)
    got = out[:, None, :] if real else out
    if not gen.rel_err(got, want) < 1e-8:
        raise Violation("output differs from the filter applied to the input by %.3g" % gen.rel_err(got, want))
    # separate() is the same linear map for any data
    rng = gen.rng_of(case, 9)
    if cfg["cls"] not in M.WHITE:
        E = gen.cnormal(rng, case["N"], X3.shape[1], 7)
        if real:
            E = E.real
        F = gen.well_conditioned(rng, (X3.shape[1],), case["N"])
        if real:
            F = F.real
        got = m.separate(E[:, 0] if real else E, demix_filter=F[0] if real else F)
        got = got[:, None] if real else got
        if not gen.rel_err(got, refs.apply_w(F, E)) < 1e-10:
            raise Violation("separate() is not the per-bin product of filter and data")
    return tags + ["given" if case["given"] else "default"]


@facet(P, "arguments_unmodified", lambda: cases(readonly=st.booleans()), quick=1200, thorough=20000, shards=3,
       rule="all separation classes: input and given initial values stay bit-identical (read-only arrays are accepted), the output "
            "does not alias them; all evaluated")
def arguments_unmodified(case):
    cfg = case["cfg"]
    X = M.mixture_for(case)
    kw = initial(case, X)
    keep, kkeep = X.copy(), copies(kw)
    if case["readonly"]:
        X.flags.writeable = False
        for v in kw.values():
            for a in v if isinstance(v, tuple) else (v,):
                a.flags.writeable = False
    m = M.build(cfg, case["seed"] % 1000, **options(case))
    out = m(X, n_iter=iters(case), **kw)
    if not same(X, keep):
        raise Violation("the input was modified")
    for k, v in kw.items():
        if not same(v, kkeep[k]):
            raise Violation("the given initial value %s was modified" % k)
    if np.shares_memory(out, X):
        raise Violation("the output aliases the input")
    return [cfg["cls"], "read-only" if case["readonly"] else "writable"] + sorted(kw)


def run(case, seed, X, **kw):
    m = M.build(case["cfg"], seed, **options(case), **kw)
    out = m(X, n_iter=iters(case), **initial(case, X))
    return m, out


def other_cases():
    """Second case uses the class of the first with different options half of the time."""
    return st.fixed_dictionaries({"a": cases(), "b": cases(), "same_class": st.booleans(), "global_seed": st.integers(0, 10**6)})


@facet(P, "deterministic_and_isolated", other_cases, quick=1200, thorough=20000, shards=4,
       rule="a run is repeated bit for bit by a fresh object with the same seed, whatever NumPy's global generator holds and whatever "
            "other separation objects do in between or inside its callbacks; a fresh array layout changes nothing beyond rounding; all evaluated")
def deterministic_and_isolated(case):
    a, b = case["a"], dict(case["b"])
    if case["same_class"]:
        cls = a["cfg"]["cls"]
        if b["cfg"]["cls"] != cls:
            cfg = dict(a["cfg"])
            # same class, other options
            if cfg.get("newton") is not None:
                cfg["newton"] = 4
            if "step" in cfg:
                cfg["step"] = 0.07
            if "relax" in cfg:
                cfg["relax"] = 1.2
            b["cfg"] = cfg
    X = M.mixture_for(a)
    seed = a["seed"] % 1000
    np.random.seed(case["global_seed"] % 1000)
    g0 = np.random.get_state()
    m1, o1 = run(a, seed, X)
    g1 = np.random.get_state()
    if not (g0[0] == g1[0] and np.array_equal(g0[1], g1[1]) and g0[2:] == g1[2:]):
        raise Violation("NumPy's global random state was changed")
    XB = M.mixture_for(b, salt=3)

    def intrude(method):
        run(b, 7, XB)

    np.random.seed(case["global_seed"] % 1000 + 1)
    m2, o2 = run(a, seed, X, callbacks=[intrude])
    if not eq(o1, o2):
        raise Violation("the same run gave a different output when other objects ran in between (max rel. diff %.3g)" % gen.rel_err(o2, o1))
    for s in M.ATTRS:
        u, v = getattr(m1, s, None), getattr(m2, s, None)
        if isinstance(u, np.ndarray) and not eq(u, v):
            raise Violation("the same run ended with a different %s" % s)
    if not (m1.loss == m2.loss or (m1.loss and eq(m1.loss, m2.loss))):
        raise Violation("the same run recorded different losses")
    # the first object was not touched by the others
    if not eq(m1.output, o1):
        raise Violation("a finished object changed afterwards")
    return [a["cfg"]["cls"], "same class" if case["same_class"] else "any class"]


def frozen(m):
    """Arrays a user can reach from a method, with copies of their contents."""
    held = []
    for name in M.ATTRS + ["input", "whitened_input"]:
        v = getattr(m, name, None)
        for x in v if isinstance(v, (tuple, list)) else (v,):
            if isinstance(x, np.ndarray):
                held.append((name, x, x.copy()))
    return held


@facet(P, "earlier_results_untouched", lambda: cases(again=st.integers(0, 2)), quick=800, thorough=15000, shards=4,
       rule="the output returned by a run and every array the object exposed after it stay bit-identical when the same object is called "
            "again on other data of the same shape (starting from an explicitly given filter where none is kept); the recorded losses of "
            "the first run stay the head of the list; all evaluated")
def earlier_results_untouched(case):
    cfg = case["cfg"]
    X, X2 = M.mixture_for(case), M.mixture_for(case, salt=11)
    m = M.build(cfg, case["seed"] % 1000, **options(case))
    init = initial(case, X)
    out = m(X, n_iter=iters(case), **init)
    keep = out.copy()
    held = frozen(m)
    losses = None if m.loss is None else list(m.loss)
    kw = {}
    if M.is_free(cfg):
        kw["demix_filter"] = gen.demix_init(case, case["I"], case["N"], salt=12)
    elif M.has_filter(cfg):
        # an own start keeps the second run away from the filter fitted (and rescaled) to the first recording
        rng = gen.rng_of(case, 13)
        if cfg["cls"] in M.ICA_CLS:
            kw["demix_filter"] = np.linalg.qr(rng.standard_normal((case["N"], case["N"])))[0]
        elif cfg["cls"] in M.WHITE:
            kw["demix_filter"] = gen.unitary(rng, case["I"], case["N"])
        else:
            kw["demix_filter"] = gen.demix_init(case, case["I"], case["N"], salt=12)
    out2 = m(X2, n_iter=case["again"] + (2 if cfg["cls"] in NFILT else 0), **kw)
    if not same(out, keep):
        raise Violation("the output returned by the first run changed during the second")
    if np.shares_memory(out, out2):
        raise Violation("the outputs of two runs share memory")
    for name, x, copy in held:
        if not same(x, copy):
            raise Violation("the %s exposed after the first run was overwritten by the second" % name)
    if losses is not None and list(m.loss[: len(losses)]) != losses:
        raise Violation("the losses of the first run changed during the second")
    return [cfg["cls"], "again=%d" % case["again"]]


class Schedule:
    """Runs functions in threads of which exactly one is active; control moves on at lines of the package as drawn."""

    def __init__(self, fns, seed, share):
        self.fns, self.share = fns, share
        self.rng = np.random.Generator(np.random.PCG64(seed))
        self.cond = threading.Condition()
        self.turn, self.alive = 0, set(range(len(fns)))
        self.results, self.errors, self.switches = [None] * len(fns), [None] * len(fns), 0
        self.prefix = os.path.join(os.path.abspath(REPO), "ssspy") + os.sep

    def hand_over(self, me, done=False):
        with self.cond:
            if done:
                self.alive.discard(me)
            others = sorted(self.alive - {me})
            if others:
                self.turn = others[int(self.rng.integers(len(others)))]
                self.switches += 1
                self.cond.notify_all()
                if not done:
                    self.wait(me)

    def wait(self, me):
        if not self.cond.wait_for(lambda: self.turn == me, timeout=120):
            raise RuntimeError("schedule stalled")

    def work(self, me):
        def line(frame, event, arg):
            if event == "line" and self.rng.random() < self.share:
                self.hand_over(me)
            return line

        def call(frame, event, arg):
            return line if os.path.abspath(frame.f_code.co_filename).startswith(self.prefix) else None

        with self.cond:
            self.wait(me)
        try:
            sys.settrace(call)
            self.results[me] = self.fns[me]()
        except Exception as e:  # noqa: BLE001
            self.errors[me] = e
        finally:
            sys.settrace(None)
            self.hand_over(me, done=True)

    def run(self):
        ts = [threading.Thread(target=self.work, args=(i,)) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def schedule_cases():
    return st.fixed_dictionaries({"a": cases(), "b": cases(), "same_class": st.sampled_from([True, True, True, False]),
                                  "schedule": st.integers(0, 2**31 - 1), "share": st.sampled_from([0.02, 0.1, 0.4])})


@facet(P, "concurrent", schedule_cases, quick=900, thorough=15000, shards=6,
       rule="two separation objects running in two threads give bit for bit what each gives alone, under drawn schedules that switch "
            "between the threads at source lines of the package; most pairs are of one class and shape; counted when both ran interleaved")
def concurrent(case):
    a, b = case["a"], dict(case["b"])
    if case["same_class"]:
        b["cfg"] = a["cfg"]
        b.update({k: a[k] for k in ("N", "I", "J")})  # the same shapes as well
    XA, XB = M.mixture_for(a), M.mixture_for(b, salt=3)
    alone = [run(a, 1, XA), run(b, 2, XB)]
    s = Schedule([lambda: run(a, 1, XA), lambda: run(b, 2, XB)], case["schedule"], case["share"])
    s.run()
    for e in s.errors:
        if isinstance(e, RuntimeError) and "stalled" in str(e):
            raise e
        if e is not None:
            raise Violation("a run fails beside another one: %r" % e)
    for (m1, o1), (m2, o2) in zip(alone, s.results):
        if not eq(o1, o2):
            raise Violation("a run beside another one gives a different output (max rel. diff %.3g)" % gen.rel_err(o2, o1))
        if m1.loss and not eq(m1.loss, m2.loss):
            raise Violation("a run beside another one records different losses")
    if s.switches < 3:
        return None
    return [a["cfg"]["cls"], "same class" if case["same_class"] else "any class", "switches>=50" if s.switches >= 50 else "switches<50"]
