"""Sample-data loader: images are the documented mixture of the requested recordings, whatever was loaded before."""
import email.message
import io
import os
import shutil
import sys
import tempfile
import urllib.error
import urllib.parse
import urllib.request
import urllib.response
import wave
import zipfile

import numpy as np
import scipy.io
import scipy.signal
from hypothesis import strategies as st

from pbt import gen
from pbt.harness import Violation, facet
from ssspy.utils.dataset import download_sample_speech_data

P = "C29"
DURATIONS = [0.16, 0.36, 0.61]
DEGREES = [30, 345, 0, 60, 315]
CHANNELS = [3, 4, 2, 5, 1, 6, 0, 7]
COUNTS = {"dev1_female3": 3, "dev1_female4": 4}

call_st = st.tuples(st.integers(2, 4), st.sampled_from(sorted(COUNTS)), st.sampled_from(DURATIONS), st.sampled_from([0.01, 0.05, 0.1, 10]), st.booleans())


def cases():
    size = st.tuples(st.integers(200, 2000), st.integers(300, 9000))
    # now and then recordings and responses that outlast every reverberation time
    long = st.tuples(st.integers(10500, 12500), st.integers(31000, 36000))
    both = st.integers(0, 7).flatmap(lambda k: long if k == 7 else size)
    return both.flatmap(lambda s: cases_of(*s))


def cases_of(length, rir):
    return st.fixed_dictionaries({
        "seed": gen.SEED, "calls": st.lists(call_st, min_size=1, max_size=4), "length": st.just(length), "rir": st.just(rir),
        "present": st.sampled_from(["none", "zip", "unpacked"]), "roots": st.sampled_from(["apart", "same", "nested"]),
    })


def mird_zip(d):
    return "Impulse_response_Acoustic_Lab_Bar-Ilan_University__Reverberation_%.3fs__3-3-3-8-3-3-3.zip" % d


def build(case, store):
    """Small stand-ins for the two archives; returns their contents."""
    rng = gen.rng_of(case)
    src, rir = {}, {}
    with zipfile.ZipFile(os.path.join(store, "dev1.zip"), "w") as z:
        for tag, n in COUNTS.items():
            mat = os.path.join(store, "x.mat")
            scipy.io.savemat(mat, {"A": rng.standard_normal((2, n))})
            if case.get("order", "last") == "first":  # order of the files in the archive
                z.write(mat, "%s_inst_matrix.mat" % tag)
            for k in range(n):
                data = rng.integers(-2**15, 2**15, case["length"]).astype("<i2")
                p = os.path.join(store, "x.wav")
                with wave.open(p, "wb") as f:
                    f.setnchannels(1), f.setsampwidth(2), f.setframerate(16000), f.writeframes(data.tobytes())
                z.write(p, "%s_src_%d.wav" % (tag, k + 1))
                src[tag, k] = data / 2.0**15
            if case.get("order", "last") == "last":
                z.write(mat, "%s_inst_matrix.mat" % tag)
    for d in sorted({c[2] for c in case["calls"]}):
        with zipfile.ZipFile(os.path.join(store, mird_zip(d)), "w") as z:
            for deg in DEGREES:
                h = rng.standard_normal((case["rir"], 8)) * np.exp(-np.arange(case["rir"])[:, None] / (500.0 if case["rir"] < 20000 else 20000.0))
                p = os.path.join(store, "x.mat")
                scipy.io.savemat(p, {"impulse_response": h})
                z.write(p, "Impulse_response_Acoustic_Lab_Bar-Ilan_University_(Reverberation_%.3fs)_3-3-3-8-3-3-3_1m_%03d.mat" % (d, deg))
                rir[d, deg] = h
    return src, rir


def expected(src, rir, call):
    N, tag, d, dur, conv = call
    S = np.stack([src[tag, k][: int(16000 * dur)] for k in range(N)])
    if not conv:
        A = np.random.default_rng(42).standard_normal((N, N))
        return A[:, :, None] * S[None]
    out = np.zeros((N, N, S.shape[1]))
    for n in range(N):
        h = scipy.signal.resample_poly(rir[d, DEGREES[n]], 1, 3, axis=0)[: int(16000 * d)]
        for m in range(N):
            out[m, n] = scipy.signal.lfilter(h[:, CHANNELS[m]], [1.0], S[n])
    return out


@facet(P, "sample_data", cases, quick=600, thorough=9000, shards=8,
       rule="call histories on shared or separate roots, with the archives absent (a stand-in serves the downloads), present, or unpacked; every call "
            "returns the images computed from the archives' contents; all evaluated")
def sample_data(case):
    top = tempfile.mkdtemp(prefix="c29-")
    orig = urllib.request._opener
    fetched = []

    class Archives(urllib.request.BaseHandler):
        """Serves the stand-ins instead of the network."""

        def http_open(self, req):
            name = urllib.parse.unquote(req.full_url.rsplit("/", 1)[1])
            p = os.path.join(store, name)
            if name == "" or not os.path.exists(p):
                raise Violation("download of an unexpected resource: %s" % req.full_url)
            fetched.append(name)
            headers = email.message.Message()
            headers["Content-Length"] = str(os.path.getsize(p))
            r = urllib.response.addinfourl(open(p, "rb"), headers, req.full_url, 200)
            r.msg = "OK"
            return r

        https_open = http_open

    try:
        store = os.path.join(top, "store")
        os.makedirs(store)
        src, rir = build(case, store)
        a = os.path.join(top, "a")
        b = {"apart": os.path.join(top, "b"), "same": a, "nested": os.path.join(a, "x", "y")}[case["roots"]]
        if case["present"] != "none":
            for p in (a, b):
                os.makedirs(p, exist_ok=True)
                for name in os.listdir(store):
                    if name.endswith(".zip"):
                        shutil.copy(os.path.join(store, name), p)
                        if case["present"] == "unpacked":
                            shutil.unpack_archive(os.path.join(store, name), p)
        opener = urllib.request.OpenerDirector()
        opener.add_handler(Archives())
        urllib.request.install_opener(opener)
        for k, call in enumerate(case["calls"]):
            N, tag, d, dur, conv = call
            if N > COUNTS[tag]:
                N = COUNTS[tag]
                call = [N] + list(call[1:])
            img, sr = download_sample_speech_data(sisec2010_root=a, mird_root=b, n_sources=N, sisec2010_tag=tag, max_duration=dur,
                                                  reverb_duration=d, conv=conv)
            want = expected(src, rir, call)
            if sr != 16000:
                raise Violation("sampling rate %r" % (sr,))
            e = gen.rel_err(img, want)
            if not e < 1e-9:
                raise Violation("call %d %s does not return the requested images (shape %s, relative difference %.3g)" % (k, call, img.shape, e))
        # an archive is fetched at most once, and not at all if it is there
        if len(set(fetched)) != len(fetched):
            raise Violation("an archive was downloaded twice: %s" % fetched)
        if case["present"] != "none" and fetched:
            raise Violation("an archive that is present was downloaded again: %s" % fetched[0])
    finally:
        urllib.request.install_opener(orig)
        shutil.rmtree(top)
    calls = case["calls"]
    return ["calls=%d" % len(calls), "present=%s" % case["present"], "roots=%s" % case["roots"],
            "tags=%d" % len({c[1] for c in calls}), "conv" if any(c[4] for c in calls) else "instantaneous"]


def faults():
    return st.fixed_dictionaries({
        "seed": gen.SEED, "calls": st.lists(call_st, min_size=1, max_size=1),
        "length": st.integers(200, 2000) | st.sampled_from([40000, 50000]), "rir": st.integers(300, 3000), "order": st.sampled_from(["first", "last"]),
        "present": st.sampled_from(["none", "zip"]), "roots": st.sampled_from(["apart", "same"]),
        "kind": st.sampled_from(["unreachable", "cut", "kill", "kill", "kill", "interrupt", "interrupt"]),
        "at": st.floats(0, 1), "times": st.integers(1, 2),
    })


WATCHED = ("ssspy/utils", "shutil.py", "zipfile", "urllib/request.py", "npyio", "numpy/lib/format.py", "_format_impl.py")


class Stop(BaseException):
    pass


class Count:
    """Trace function: counts the lines executed in the loader and the library code that writes its files; acts at line number n."""

    def __init__(self, n, action):
        self.left, self.action, self.lines = n, action, 0

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self.local if any(w in f for w in WATCHED) else None

    def local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.lines == self.left:
                self.action()
        return self.local


@facet(P, "interrupted", faults, quick=240, thorough=4000, shards=8,
       rule="a load fails (server unreachable, connection cut after some bytes), is killed without clean-up, or raises at an arbitrary executed line of the "
            "loader and of the library code that writes its files, once or twice; the next load returns the requested images or raises, and after a failed "
            "download it returns them; all evaluated")
def interrupted(case):
    top = tempfile.mkdtemp(prefix="c29-")
    orig = urllib.request._opener
    sys.unraisablehook = lambda *args: None  # half-built archive objects complain when collected
    rng = gen.rng_of(case, 5)
    fail = {"mode": None}

    class Archives(urllib.request.BaseHandler):
        def http_open(self, req):
            p = os.path.join(store, urllib.parse.unquote(req.full_url.rsplit("/", 1)[1]))
            if fail["mode"] == "unreachable":
                raise urllib.error.URLError("unreachable")
            size = os.path.getsize(p)
            with open(p, "rb") as f:
                data = f.read()
            if fail["mode"] == "cut":
                data = data[: int(case["at"] * (size - 1))]
            headers = email.message.Message()
            headers["Content-Length"] = str(size)
            r = urllib.response.addinfourl(io.BytesIO(data), headers, req.full_url, 200)
            r.msg = "OK"
            return r

        https_open = http_open

    def load():
        return download_sample_speech_data(sisec2010_root=a, mird_root=b, n_sources=N, sisec2010_tag=tag, max_duration=dur, reverb_duration=d, conv=conv)

    def traced(n, action):
        t = Count(n, action)
        old = sys.gettrace()
        sys.settrace(t)
        try:
            load()
        finally:
            sys.settrace(old)
        return t.lines

    def stop():
        raise Stop

    try:
        store = os.path.join(top, "store")
        os.makedirs(store)
        src, rir = build(case, store)
        N, tag, d, dur, conv = case["calls"][0]
        N = min(N, COUNTS[tag])
        want = expected(src, rir, [N, tag, d, dur, conv])
        opener = urllib.request.OpenerDirector()
        opener.add_handler(Archives())
        urllib.request.install_opener(opener)

        def roots(k):
            p, q = os.path.join(top, "a%d" % k), os.path.join(top, "b%d" % k)
            if case["roots"] == "same":
                q = p
            if case["present"] == "zip":
                for r in (p, q):
                    os.makedirs(r, exist_ok=True)
                    for name in os.listdir(store):
                        if name.endswith(".zip"):
                            shutil.copy(os.path.join(store, name), r)
            return p, q

        kind = case["kind"]
        if kind in ("kill", "interrupt"):
            a, b = roots(0)
            total = traced(-1, None)  # number of lines of an undisturbed load
        a, b = roots(1)
        failed = 0
        for _ in range(case["times"]):
            if kind in ("unreachable", "cut"):
                fail["mode"] = kind
                try:
                    load()
                except Exception:
                    failed += 1
                fail["mode"] = None
            else:
                n = 1 + int(rng.random() * total)
                if kind == "interrupt":
                    try:
                        traced(n, stop)
                    except Stop:
                        failed += 1
                    except Exception:  # a load after the first failure may refuse
                        pass
                else:
                    pid = os.fork()
                    if pid == 0:
                        try:
                            traced(n, lambda: os._exit(7))
                        finally:
                            os._exit(0)
                    failed += os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 7
        try:
            img, sr = load()
        except Exception as e:
            if kind in ("unreachable", "cut"):
                raise Violation("after a failed download, a load with the server back fails: %s: %s" % (type(e).__name__, str(e)[:100]))
            return [kind, "refused", "failed=%d" % failed]
        if sr != 16000 or not gen.rel_err(img, want) < 1e-9:
            raise Violation("after an interrupted load, the next one returns other images than requested")
    finally:
        urllib.request.install_opener(orig)
        shutil.rmtree(top)
    return [kind, "loaded", "failed=%d" % failed]
